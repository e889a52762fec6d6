package mon

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// demoBuilds are the builds of the root program.
var demoBuilds = []struct {
	name string
	args []string
	tier bool // built with CPU features maskable by VMON_SIMD
}{
	{"plain", nil, false},
	{"noasm", []string{"-tags", "noasm"}, false},
	{"race", []string{"-race"}, false},
	{"tiers", nil, true},
}

func init() {
	register(&Monitor{
		ID:      "C22",
		Rule:    "a case is one run of the program built from the repository root (build, instruction-set tier, processor count, environment), judged by its exit status and standard output; in the start stage runs are ended once the recovered message is printed; distinct by build and environment",
		Configs: []string{"native"},
		Need:    map[string]int64{"complete runs": 18, "latencies": 360, "messages compared": 600},
		Assumptions: []string{"a run that has not ended after 240 s does not end (it takes about 2 s)",
			"lines are recognised by their form: '<size> - <what> ... (<number> ns per operation)'"},
		Stages: []Stage{
			{Name: "build", N: fixed(len(demoBuilds), len(demoBuilds)), Run: c22build, Phase: 0, RealEntropy: true},
			{Name: "run", N: fixed(24, 240), Run: c22run, Phase: 1, RealEntropy: true},
			{Name: "start", N: fixed(64, 1600), Run: c22start, Phase: 1, RealEntropy: true},
		},
	})
}

func demoPath(c *C, name string) string { return filepath.Join(c.Dir, "demo-"+name) }

func c22build(c *C, i int) {
	b := demoBuilds[i]
	args := []string{"build", "-o", demoPath(c, b.name)}
	mod := filepath.Join(c.Dir, "demo-"+b.name+".mod")
	cmd := exec.Command("go")
	if b.tier {
		// from the monitors' module, with a file that masks CPU features added
		ov, src := filepath.Join(c.Dir, "demo-ov.json"), filepath.Join(c.Dir, "demo-simd.go")
		os.WriteFile(src, []byte("package main\n\nimport _ \"a.verif/vmon/aasimd\"\n"), 0o644)
		j, _ := json.Marshal(map[string]any{"Replace": map[string]string{"/repo/zz_verif_simd.go": src}})
		os.WriteFile(ov, j, 0o644)
		mod = os.Getenv("VMON_MODFILE")
		args = append(args, "-overlay", ov, "-modfile", mod, "github.com/fadhilkurnia/shamir")
		cmd.Dir = os.Getenv("VMON_HARNESS")
	} else {
		for _, f := range [][2]string{{"/repo/go.mod", mod}, {"/repo/go.sum", strings.TrimSuffix(mod, ".mod") + ".sum"}} {
			x, err := os.ReadFile(f[0])
			if err != nil {
				Inconclusive("reading %s: %v", f[0], err)
			}
			os.WriteFile(f[1], x, 0o644)
		}
		args = append(append(args, b.args...), "-modfile", mod, ".")
		cmd.Dir = "/repo"
	}
	cmd.Args = append([]string{"go"}, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	if out, err := cmd.CombinedOutput(); err != nil {
		Inconclusive("building the program (%s): %v\n%s", b.name, err, out)
	}
	c.Obs("builds", 1)
	c.Distinct("build", b.name)
}

type demoRun struct {
	build, simd, env, how string
}

// demoVariant picks a build and environment.
func demoVariant(i int) demoRun {
	var d demoRun
	switch i % 8 {
	case 0, 4:
		d.build = "plain"
	case 1, 5:
		d.build = "noasm"
	case 2:
		d.build, d.simd = "tiers", "ssse3"
	case 3:
		d.build, d.simd = "tiers", "sse2"
	case 6:
		d.build, d.simd = "tiers", "none"
	case 7:
		d.build = "race"
	}
	procs := []string{"1", "2", "8", "3"}[i/8%4]
	d.env = "GOMAXPROCS=" + procs
	if i/8%3 == 1 {
		d.env += " GOGC=5"
	}
	d.how = strings.TrimSpace(d.build + " " + d.simd + " " + d.env)
	return d
}

func (d demoRun) command(ctx context.Context, c *C) *exec.Cmd {
	if _, err := os.Stat(demoPath(c, d.build)); err != nil {
		for i, b := range demoBuilds {
			if b.name == d.build {
				c22build(c, i) // a replay of one case
			}
		}
	}
	cmd := exec.CommandContext(ctx, demoPath(c, d.build))
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + c.Dir, "VMON_SIMD=" + d.simd, "GORACE=halt_on_error=0 exitcode=66"}, strings.Fields(d.env)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

var demoLine = regexp.MustCompile(`^\s*(\d+)\s*-\s*(.*?)\s*\(\s*(\S+)\s+ns per operation\s*\)\s*$`)

func c22run(c *C, i int) {
	d := demoVariant(i)
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	var out, errb bytes.Buffer
	cmd := d.command(ctx, c)
	cmd.Stdout, cmd.Stderr = &out, &errb
	c.op = "the program (" + d.how + ")"
	t0 := time.Now()
	err := cmd.Run()
	text := out.String()
	det := map[string]any{"stdout": cut(text, 4000), "stderr": cut(errb.String(), 3000)}
	c.Eval(1)
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		c.ViolateD(det, "no-return", "the program (%s) had not ended after %v", d.how, time.Since(t0))
		return
	case errors.As(err, &ee):
		c.ViolateD(det, "status", "the program (%s) ended with %v", d.how, ee)
		return
	case err != nil:
		Inconclusive("running the program: %v", err)
	}
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	if len(lines) < 2 || lines[0] != lines[1] || demoLine.MatchString(lines[0]) {
		c.ViolateD(det, "message", "the program (%s) does not print the message and then the same message recovered: %q", d.how, lines[:min(2, len(lines))])
		return
	}
	c.Obs("messages compared", 1)
	// sizes by kind of measurement, that is by the words before the duration
	kinds := map[string]map[int]bool{}
	for _, l := range lines[2:] {
		m := demoLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		size, _ := strconv.Atoi(m[1])
		v, err := strconv.ParseFloat(m[3], 64)
		c.Eval(1)
		if err != nil || math.IsNaN(v) || math.IsInf(v, 0) || v <= 0 {
			c.ViolateD(det, "latency", "the program (%s) reports no finite positive latency: %q", d.how, l)
			return
		}
		kind := strings.Join(strings.Fields(m[2])[:min(2, len(strings.Fields(m[2])))], " ")
		if kinds[kind] == nil {
			kinds[kind] = map[int]bool{}
		}
		kinds[kind][size] = true
		c.Obs("latencies", 1)
	}
	if len(kinds) != 2 {
		c.ViolateD(det, "measurements", "the program (%s) reports %d kinds of measurement instead of 2", d.how, len(kinds))
		return
	}
	for k, sizes := range kinds {
		for size, n := len(lines[0]), 0; n < 10; size, n = size*2, n+1 {
			c.Eval(1)
			if !sizes[size] {
				c.ViolateD(det, "measurements", "the program (%s) reports no %q latency for messages of %d bytes", d.how, k, size)
				return
			}
		}
	}
	c.Obs("complete runs", 1)
	c.Distinct("run", d.how)
	if i < 2 {
		c.Sample(map[string]any{"run": d.how, "seconds": time.Since(t0).Seconds(), "lines": len(lines), "first": lines[0], "second": lines[1]})
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// c22start: many starts, ended when the recovered message is there.
func c22start(c *C, i int) {
	for t := 0; t < 12; t++ {
		d := demoVariant(i*12 + t)
		ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
		cmd := d.command(ctx, c)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		pipe, err := cmd.StdoutPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			cancel()
			Inconclusive("starting the program: %v", err)
		}
		r := bufio.NewReader(pipe)
		var l [2]string
		var e error
		for j := range l {
			for e == nil && strings.TrimSpace(l[j]) == "" {
				l[j], e = r.ReadString('\n')
			}
		}
		if e == nil {
			cmd.Process.Kill()
		}
		timeout := ctx.Err() != nil
		werr := cmd.Wait()
		cancel()
		c.Eval(1)
		if e != nil || l[0] != l[1] {
			c.ViolateD(map[string]any{"stderr": cut(errb.String(), 3000)}, "message", "the program (%s) does not print the message and then the same message recovered: %q, then %q (%v, %v, timeout %v)", d.how, l[0], l[1], e, werr, timeout)
			return
		}
		if strings.Contains(errb.String(), "DATA RACE") {
			c.ViolateD(map[string]any{"stderr": cut(errb.String(), 6000)}, "race", "the program (%s) has a data race", d.how)
			return
		}
		c.Obs("messages compared", 1)
		c.Distinct("start", d.how)
	}
}
