#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after changing either)."""
import json, subprocess
T = {
"C01": "round-trip monitor over every split entry point, SIMD tier and build; exact comparison with the secret",
"C02": "round-trip monitor of SSMS splits and combines over lengths, (n,k), subsets and orders",
"C03": "offline statistical and freshness monitors over recovered polynomial coefficients",
"C04": "invariant monitor on share points, with distribution tests over many splits",
"C05": "offline freshness monitor over random bytes and coefficients of many source histories",
"C06": "entropy-interposition monitor: dependence of every secret byte on crypto/rand, with reseeding, fault and process-start experiments",
"C07": "reference decoding of keys, key polynomials and ciphertexts with statistical monitors; refusal monitor of all sub-threshold combines",
"C08": "request monitor: grid and extreme parameters against the acceptance predicate",
"C09": "hostile-input monitor with panic, time and memory watchdogs, structure-aware mutation of share sets",
"C10": "trace monitor of read histories against an independent AES-CTR key stream, with canaries around the buffers",
"C11": "invariant and distribution monitor of permutations and unique-byte lists",
"C12": "exhaustive comparison of field operations with an independent model, with termination watchdog",
"C13": "guard-page memory monitor and differential oracle for the vector kernels in every SIMD tier",
"C14": "differential monitor across processes: SIMD tiers, builds and entry points against the model",
"C15": "Go race detector and schedule-stress monitors with judged results, pool poisoning through hooks",
"C16": "aliasing monitor: address ranges, snapshots and overwriting of all inputs and outputs",
"C17": "regeneration monitor against the recovered polynomials",
"C18": "pool monitors: sequential model, ownership ledger under stress, race detector on holders",
"C19": "history monitor of worker request sequences, judged by reference decoders and the acceptance predicate",
"C20": "two-way conformance monitor against an independent implementation and stored share sets",
"C21": "history monitor: model-predicted outcomes with recycled buffers overwritten through hooks",
"C23": "fault injection into the system's entropy at every byte, in processes of their own, with judged results and model decoding",
"C24": "resource monitor: live heap, goroutines, open files and idle CPU over stretches of repeated operations, escalated until growth is certain",
"C25": "information-flow monitor: everything a process puts out, system calls included, searched for the secrets it handled in common encodings",
"C22": "process monitor of the built program: exit status, output, repeated under tiers, builds, race detector",
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hook = subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^verif:'],capture_output=True,text=True).stdout.split()
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "verif", "enable": "go build -tags verif (done by check.sh)", "source_commits": hook},
 "checks": [],
 "not_applicable": [],
 "notes": "check.sh builds the monitors of one property together with /repo's working tree in a private directory and runs them; see DESIGN.md. known_findings.txt lists repaired defects.",
}
for p in props:
    i = p["id"]
    m["checks"].append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": T[i],
        "level": "exploration",
        "level_note": "The property held on the executions observed (counts in the evidence file); nothing is claimed about executions that were not run. Trusts the Go toolchain and the independent models in harness/ref.",
    })
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
