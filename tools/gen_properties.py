#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

SPL = "shamir.Split, SplitWithRandomizer, SplitWithRandomizerOld, SplitGeneric, SplitP, Worker.Split(\"shamir\")"

prop("C01", "Any threshold-many Shamir shares give back the exact secret",
 "For every non-empty secret and every 2 <= k <= n <= 255, each way of splitting offered by the library returns n shares, and combining any k or more of those n shares, in any order, returns exactly the original bytes. Combining does not depend on which split entry point, which share points or which machine produced the shares.",
 ["inputs", "configurations"], "all secrets (content and length, to several MB), all (n,k), all subsets of size >= k in any order, all split entry points, all share points 1..255",
 "Tests split one 43-byte text at a handful of (n,k), nearly always combine the first k shares, and give shamir.SplitP and SplitGeneric no round trip at all; errors are discarded.",
 ["shamir/shamir.go", "shamir/polynomial.go", "shamir/tables.go", "galois/vector_amd64.go"],
 [("polynomial evaluation (Horner, vectorised)", "shamir/polynomial.go evaluatePolynomialsAt*"), ("Lagrange interpolation at 0", "shamir/polynomial.go interpolatePolynomial"), ("share layout y1..yN,x", "shamir/shamir.go Split*")],
 [SPL + " -> shamir.Combine"])

prop("C02", "Any threshold-many SSMS shares give back the exact secret",
 "For every non-empty secret and every 2 <= k <= n <= 255, SSMS (krawczyk) splitting succeeds with n shares, and combining any k or more distinct ones of them, in any order and with missing positions left nil or left out, returns exactly the original bytes.",
 ["inputs", "configurations"], "all secrets of any length (in particular around multiples of k, 16, 64 and allocator size classes), all (n,k), all subsets and orders, nil holes, both split entry points and the worker",
 "Tests use six fixed messages, n <= 20, and first-k or all shares; TestSplitLen splits lengths 1..5000 at (5,2) only and never combines; whether splitting works at all depends on how length, k and buffer capacity line up.",
 ["krawczyk/krawczyk.go", "krawczyk/aes.go", "shamir/shamir.go"],
 [("AES-OFB + Reed-Solomon + Shamir of key/length", "krawczyk/krawczyk.go Split, SplitWithRandomizer"), ("part-id guided reconstruction", "krawczyk/krawczyk.go Combine")],
 ["krawczyk.Split, SplitWithRandomizer, Worker.Split(\"krawczyk\") -> krawczyk.Combine"])

prop("C03", "Fewer than threshold Shamir shares carry no information about the secret",
 "In every Shamir split, the n shares of each secret byte lie on one polynomial of degree below k whose constant term is that byte and whose other k-1 coefficients are uniformly random (zero included) and independent of the secret, of the share points, of the other bytes' coefficients and of other splits. Hence any k-1 shares are distributed independently of the secret.",
 ["inputs", "configurations", "histories"], "all secrets, lengths, (n,k), split entry points, and positions of the split within a process or randomizer lifetime",
 "No test looks at the distribution of a share; a split that used no randomness at all would pass every test.",
 ["shamir/polynomial.go", "shamir/shamir.go", "csprng/csprng.go", "utils/bufferpool.go"],
 [("random coefficients", "shamir/polynomial.go makePolynomials*"), ("randomizer stream", "csprng/csprng.go Read"), ("recycled scratch buffers", "shamir/shamir.go bPool")],
 ["coefficients interpolated from k returned shares by an independent solver"],
 state=[{"name": "coefficients", "meaning": "random polynomial per secret byte", "where": "shamir/polynomial.go"}])

prop("C04", "Share points are pairwise distinct and never zero",
 "Every Shamir share ends in its evaluation point, and within one split all n points are distinct and in 1..255, for every n up to 255 and every split entry point (including the key part of SSMS shares). In particular no share ever is the secret itself, and n different shares are always usable together.",
 ["inputs", "histories"], "all n in 2..255, all entry points, all randomizer states (including those where the random stream holds 255, 0 or repeated bytes)",
 "Tests split with n <= 20 a few times with unpredictable randomness; the bad randomizer states occur in about n/256 of the splits, and no test inspects the points.",
 ["shamir/shamir.go", "csprng/csprng.go", "krawczyk/krawczyk.go"],
 [("point selection", "csprng/csprng.go GetUniqueBytes, Perm"), ("point encoding +1", "shamir/shamir.go Split*")],
 ["last byte of each Shamir share; byte 20 of each SSMS share"])

prop("C05", "No randomness is ever used twice",
 "Across all splits made in a process - same or different secret, same or different worker or randomizer, sequential or concurrent - no polynomial coefficient material and no SSMS encryption key is ever repeated or overlaps with that of another split. Splitting the same secret twice gives unrelated shares, and two SSMS ciphertexts are never produced under one key stream.",
 ["histories", "schedules"], "all sequences and interleavings of splits over one or several randomizers, entry points and goroutines",
 "Tests never compare the output of two splits; repetition only shows across calls on one randomizer or under concurrent use.",
 ["csprng/csprng.go", "shamir/polynomial.go", "shamir/shamir.go", "krawczyk/krawczyk.go", "worker/worker.go", "randomizer/randomizer.go"],
 [("stream position", "csprng/csprng.go Read"), ("key generation", "krawczyk/krawczyk.go Split*")],
 ["coefficients and keys recovered from returned shares"],
 state=[{"name": "stream position of a CSPRNG", "meaning": "how much key stream has been handed out", "where": "csprng/csprng.go"}])

prop("C06", "Share randomness cannot be reproduced from process-visible generator state",
 "The randomness behind shares, keys, new share points and fresh random sources cannot be recomputed by resetting the process-wide math/rand generator to a known seed, by knowing the time of the call or the process id, or by starting the process again. Two runs that agree on all of those still produce unrelated shares.",
 ["histories", "configurations"], "all math/rand seeds, call times, process starts, and all entry points that draw randomness (including the constructors of random sources)",
 "Tests never reseed, restart or time an attack; the output of a predictable generator looks the same as that of a good one within one run.",
 ["csprng/csprng.go", "randomizer/randomizer.go", "shamir/polynomial.go", "shamir/shamir.go", "krawczyk/krawczyk.go"],
 [("seeding", "csprng/csprng.go NewCSPRNG, randomizer/randomizer.go NewRandomizer"), ("coefficients, points, keys", "shamir/*.go, krawczyk/krawczyk.go")],
 ["shares and random bytes produced under a known seed/time, replayed"])

prop("C07", "Fewer than threshold SSMS shares neither reveal nor rebuild the secret",
 "Each SSMS split encrypts the secret under its own uniformly random 128-bit key, and that key is itself threshold-shared with fresh polynomials of degree k-1, so the payload parts of shares are unrelated to the plaintext and fewer than k shares do not determine the key. Combining fewer than k distinct shares of a split (duplicates and nil entries not counted) always returns an error, never data.",
 ["inputs", "configurations"], "all secrets (including all-zero and repetitive ones), all (n,k), all subsets smaller than k, both split entry points and the worker",
 "No test combines too few shares, looks at keys or ciphertext, or compares two splits.",
 ["krawczyk/krawczyk.go", "krawczyk/aes.go", "shamir/shamir.go", "worker/worker.go"],
 [("fresh key", "krawczyk/krawczyk.go Split*"), ("key sharing", "krawczyk/krawczyk.go Split* -> shamir.Split*"), ("too-few-shards refusal", "krawczyk/krawczyk.go Combine")],
 ["key, ciphertext and key-polynomials recovered from shares by an independent decoder; error result of krawczyk.Combine"])

prop("C08", "Invalid split requests are refused with an error and no shares",
 "A split request is accepted exactly when 2 <= k <= n <= 255 and the secret is non-empty; any other combination of numbers (zero, negative, above 255, k > n, extreme integers) or an empty or nil secret returns an error and no shares. No request makes the library panic, hang or return fewer or more than n shares.",
 ["inputs", "configurations"], "all integer pairs (n,k) and all secrets, for every split entry point of Shamir, SSMS and the worker",
 "No test makes an invalid request.",
 ["shamir/shamir.go", "krawczyk/krawczyk.go", "worker/worker.go"],
 [("parameter checks", "shamir/shamir.go Split*, krawczyk/krawczyk.go Split*")],
 ["(shares, err) of every split entry point"])

prop("C09", "Malformed share sets are refused: no panic, no hang, no fabricated data",
 "Combining (Shamir, SSMS, worker) and regenerating return an error and no data when given no or too few shares, empty or too short shares, shares of different lengths, the same share point twice, an SSMS part number outside 0..n-1 or invalid n/k. For arbitrary bytes presented as shares they always return, without panicking, either an error or an output no longer than the shares can carry.",
 ["inputs"], "all share sets: arbitrary number, lengths and contents, including truncated, extended, duplicated, bit-flipped, mixed and nil shares, and all n/k arguments to SSMS combine",
 "No test gives a combine anything but intact shares.",
 ["shamir/shamir.go", "krawczyk/krawczyk.go", "worker/worker.go"],
 [("share set validation", "shamir/shamir.go Combine, Regenerate; krawczyk/krawczyk.go Combine")],
 ["(data, err) of shamir.Combine, shamir.Regenerate, krawczyk.Combine, Worker.Combine"])

prop("C10", "Random sources deliver one continuous, exact AES-CTR key stream",
 "A source created from a 16-byte key and 16-byte IV delivers, over any sequence of reads of any sizes, exactly the consecutive bytes of the AES-128-CTR key stream for that key and IV: nothing skipped or repeated, whatever the buffers held before, always filling the whole buffer and reporting its length. A self-seeded source delivers an unrelated stream of the same kind.",
 ["histories", "inputs"], "all keys, IVs (including counter carries), read-size sequences (0 bytes to several MB, aligned or not) and prior buffer contents; both csprng and randomizer sources",
 "The one test reads once, at position 0, into a zeroed buffer, under the all-zero key and IV.",
 ["csprng/csprng.go", "randomizer/randomizer.go"],
 [("keystream reads", "csprng/csprng.go Read; randomizer/randomizer.go Read")],
 ["bytes returned by Read"])

prop("C11", "Random permutations and unique byte lists are valid for every size",
 "For every n in 0..255, asking a random source for a permutation returns each value 0..n-1 exactly once, and asking for n unique bytes returns n pairwise different bytes; both always return, for every state of the source, without panicking. The results are random: no value is excluded from any position it could take, and successive calls are unrelated.",
 ["inputs", "histories"], "all n in 0..255 and all states of the random stream, csprng and randomizer sources",
 "The only test asks for one permutation of 255; sizes 0, 1, 2, the unique-byte list, and the alternative source are never called, and bad stream states have probability below 1/100 per call.",
 ["csprng/csprng.go", "randomizer/randomizer.go"],
 [("shuffle", "csprng/csprng.go Perm; randomizer/randomizer.go Perm"), ("rejection of duplicates", "csprng/csprng.go GetUniqueBytes")],
 ["returned byte lists"])

prop("C12", "Field operations implement GF(2^8) exactly",
 "Addition, subtraction, both multiplications, division by non-zero elements and exponentiation by non-negative integers agree, for all operands, with the field GF(2)[x]/(x^8+x^4+x^3+x^2+1); dividing a non-zero element by zero panics instead of returning a value. Share reconstruction uses the same field for every pair of share points.",
 ["inputs"], "all 65536 operand pairs of each operation, all exponents up to the integer range, and all ordered pairs of share points",
 "The galois package has no tests; a wrong table entry is used by few share points and bytes.",
 ["galois/galois.go", "galois/tables.go", "shamir/polynomial.go", "shamir/tables.go"],
 [("table driven arithmetic", "galois/galois.go, galois/tables.go"), ("second table set", "shamir/tables.go, shamir/polynomial.go mult/div")],
 ["results of galois.Gal*; shamir.Combine/Regenerate of two and three shares"])

prop("C13", "Vector operations equal elementwise arithmetic and stay in bounds",
 "For every constant, length, alignment and content, multiplying a vector by a constant and adding two equally long vectors give, element by element, the scalar field results, with SIMD and portable versions agreeing, an addition's first operand unchanged and its result stored in the second operand. They never read or write outside the vectors given, and adding vectors of different lengths panics without having written anything.",
 ["inputs", "configurations"], "all constants 0..255, lengths 0..1200 and selected larger ones, all 64 alignments, aliasing operands, unequal lengths, at page borders, per instruction-set tier",
 "Vector code has only benchmarks without assertions; tests reach it with few lengths and one instruction-set tier, and cannot notice an access just outside a slice.",
 ["galois/vector_amd64.go", "galois/vector_amd64.s", "galois/vector_noasm.go", "galois/vector.go", "galois/tables.go"],
 [("SIMD main loop + scalar tail", "galois/vector_amd64.go"), ("portable version", "galois/vector_noasm.go")],
 ["returned and operand slices between guard pages and canaries"])

prop("C14", "Results do not depend on CPU features or build configuration",
 "With the same random stream, splitting gives byte-identical shares whether the CPU offers AVX2, only SSSE3, only SSE2 or none of them, and whether assembly is compiled in or not; vector operations likewise. Shares produced under any of these configurations combine under every other one.",
 ["configurations", "inputs"], "all instruction-set tiers and build tags runnable on this machine, crossed producer x consumer, over secrets, (n,k) and both algorithms",
 "Tests run on one machine in one build: only the AVX2 path is ever executed.",
 ["galois/vector_amd64.go", "galois/vector_amd64.s", "galois/vector.go", "galois/vector_noasm.go", "shamir/polynomial.go"],
 [("tier selection", "galois/vector_amd64.go init"), ("build tags", "galois/vector.go")],
 ["shares written by one configuration and digested/combined by another"])

prop("C15", "Concurrent use is free of data races and gives correct results",
 "Any number of goroutines may split, combine and regenerate at the same time, through package functions, their own workers or one shared worker or shared csprng source, without data races, and every operation behaves as if it ran alone: every share set it produced reconstructs exactly, and concurrent readers of one csprng source get disjoint parts of its stream.",
 ["schedules", "histories"], "all interleavings of mixed operations, sizes and algorithms over package-level functions, private and shared workers, including the goroutines inside SplitP",
 "The parallel tests run one operation on one input, discard every result and run without the race detector.",
 ["shamir/shamir.go", "shamir/polynomial.go", "utils/bufferpool.go", "csprng/csprng.go", "worker/worker.go", "krawczyk/krawczyk.go"],
 [("buffer pools", "utils/bufferpool.go; shamir bPool, polynomialBufferPool"), ("stream position", "csprng/csprng.go"), ("chunk goroutines", "shamir/shamir.go SplitP")],
 ["race detector reports; results checked per operation"],
 hook="optional: utils pool get/put events (build tag verif)")

prop("C16", "Inputs are left untouched and outputs are independent of everything else",
 "No operation modifies the secret, the shares or the key material passed to it, or keeps using them after returning. Every share, recovered secret and random list it returns is memory of its own: overwriting or appending to one never changes another one, any input, or the result of any later operation, and later operations never change results returned earlier.",
 ["histories", "inputs"], "all operations and all later mutations of inputs and outputs (including appends within slice capacity), followed by any further operations",
 "Tests drop inputs and outputs right after one comparison and never write to a returned share.",
 ["shamir/shamir.go", "krawczyk/krawczyk.go", "csprng/csprng.go", "utils/bufferpool.go", "galois/vector_amd64.go"],
 [("output buffers", "shamir/shamir.go Split*"), ("pooled scratch memory", "shamir/shamir.go, shamir/polynomial.go"), ("newByteMatrix", "krawczyk/krawczyk.go")],
 ["address ranges (to capacity) and snapshots of inputs and outputs"],
 hook="optional: poisoning of pooled buffers on put (build tag verif)")

prop("C17", "Regenerated shares extend the original sharing consistently",
 "Given at least k genuine shares, regenerating c further shares returns c shares on the same secret polynomials, whose points are non-zero, pairwise different and different from those of the shares given, so that any k of the given and new shares recover the secret. If that many unused points do not exist, or the count is negative, an error is returned instead.",
 ["inputs", "histories"], "all share sets of size >= k from any split entry point, all c (0 up to exhausting all 255 points and beyond), repeated regeneration from mixtures of old and new shares",
 "Two tests regenerate 4-5 shares of one text and combine one or two of them; clashing or zero points occur in a few percent of such calls and are not looked for.",
 ["shamir/shamir.go", "shamir/polynomial.go"],
 [("new point selection", "shamir/shamir.go Regenerate"), ("interpolation at a new point", "shamir/polynomial.go interpolatePolynomial")],
 ["shares returned by shamir.Regenerate"])

prop("C18", "The buffer pool never hands one buffer to two holders and never blocks",
 "A buffer obtained from the pool belongs to its holder alone until it is put back: under any concurrent use each buffer put back is handed out at most once afterwards, and getting and putting never block, with getting always yielding a usable buffer. The pool retains at most its configured number of buffers and drops further ones, hands back exactly those it retained before making new ones, and a non-positive size means a positive default.",
 ["schedules", "histories"], "all interleavings of get and put by any number of goroutines, all pool sizes, pools empty, full and in between",
 "The utils package has no tests, and no test checks results under concurrent splits.",
 ["utils/bufferpool.go"],
 [("bounded channel with non-blocking get/put", "utils/bufferpool.go Get, Put")],
 ["get/put events with buffer identity; ownership stamps written by holders"],
 state=[{"name": "ch", "meaning": "retained free buffers", "where": "utils/bufferpool.go"}])

prop("C19", "A worker is faithful to the algorithm it is asked for",
 "Splitting and combining through a worker with the name of the Shamir or the SSMS algorithm behaves as the corresponding package does, so shares made by a worker, by another worker or by the package itself can be combined by any of them; any other algorithm name is refused with an error for both operations. One worker serves any sequence of mixed requests, including after refused ones.",
 ["histories", "inputs"], "all algorithm names, all request sequences over one or several workers, all (n,k) and secrets",
 "The worker package has no tests.",
 ["worker/worker.go"],
 [("dispatch on algorithm name", "worker/worker.go Split, Combine")],
 ["(shares|secret, err) of Worker methods, decoded by an independent reference decoder"])

prop("C20", "Share format and size are stable, so stored shares stay readable",
 "A Shamir share is the field evaluations of the secret bytes followed by the point (secret length + 1 bytes); an SSMS share is the 21-byte Shamir share of AES-128 key and little-endian length, one systematic Reed-Solomon part of ceil(len/k) bytes of the zero-IV AES-OFB ciphertext, and the part number 0..n-1 (ceil(len/k) + 22 bytes in all). Shares written earlier in this format by any conforming implementation are recovered, and shares produced now are readable by one.",
 ["inputs", "configurations"], "all secrets, (n,k) and subsets, in both directions against an independent reference implementation, plus stored share sets",
 "Tests only round-trip through the same build, so a change to both sides at once is invisible; one test checks one share length.",
 ["shamir/shamir.go", "krawczyk/krawczyk.go", "krawczyk/aes.go", "galois/tables.go"],
 [("layout", "shamir/shamir.go Split*, Combine; krawczyk/krawczyk.go Split*, Combine"), ("cipher", "krawczyk/aes.go")],
 ["bytes of shares; results of Combine on reference-made and stored shares"])

prop("C21", "Every operation's outcome is independent of what ran before it",
 "In any sequence of operations - any mix of algorithms, entry points, sizes growing and shrinking, regenerations, refused requests and random reads on long-lived workers - each operation succeeds or fails exactly as it would in a fresh process, and each successful split round-trips and keeps its fresh random coefficients. Contents left in recycled buffers never reach a result.",
 ["histories"], "all operation sequences over one process (up to tens of thousands of operations), with recycled buffers filled with adversarial content",
 "Each test performs one kind of operation on fresh state and one size, so recycled buffers always have the same size and similar contents.",
 ["shamir/shamir.go", "shamir/polynomial.go", "utils/bufferpool.go", "csprng/csprng.go", "krawczyk/krawczyk.go", "worker/worker.go"],
 [("recycled buffers", "utils/bufferpool.go, shamir bPool, polynomialBufferPool"), ("long-lived randomizer", "worker/worker.go, csprng/csprng.go")],
 ["results of each operation in a recorded random sequence"],
 hook="optional: poisoning of pooled buffers on put (build tag verif)")

prop("C22", "The demonstration program shares and recovers its message",
 "Running the program in the repository root ends with status 0, prints the message and then the identical message recovered from its shares, and goes on to report a finite positive latency for every message size of both measurements.",
 ["configurations", "histories"], "repeated runs, under every instruction-set tier or build tag the machine can run and different processor counts",
 "The root package's tests are not part of the suite, and none of them runs the program.",
 ["main.go", "shamir/shamir.go"],
 [("split, combine, measure", "main.go")],
 ["exit status and standard output of the built program"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
