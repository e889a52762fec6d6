package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// overlay writes a build overlay of the standard library, and returns the file
// that describes it. For the tag frozen the clock and the process id can be
// set; for the tag faulty crypto/rand.Read returns an error when the reader
// fails, as it does before Go 1.24; for the tag wished every environment
// variable that the library asks for is set, to what VMON_WISH says.
func overlay(dir, tag string) (string, error) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	root := filepath.Join(strings.TrimSpace(string(b)), "src")
	repl := map[string]string{}
	put := func(at, name, text string) error {
		f := filepath.Join(dir, name)
		repl[filepath.Join(root, at)] = f
		return os.WriteFile(f, []byte(text), 0o644)
	}
	patch := func(at, name string, subst ...string) error {
		b, err := os.ReadFile(filepath.Join(root, at))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(subst); i += 2 {
			if strings.Count(s, subst[i]) != 1 {
				return fmt.Errorf("%s: %q not found once", at, subst[i])
			}
			s = strings.Replace(s, subst[i], subst[i+1], 1)
		}
		return put(at, name, s)
	}
	var errs []error
	switch tag {
	case "faulty":
		errs = append(errs, patch("crypto/rand/rand.go", "rand.go",
			`fatal("crypto/rand: failed to read random data (see https://go.dev/issue/66821): " + err.Error())`+"\n\t\tpanic(\"unreachable\") // To be sure.", "return 0, err"))
	case "wished":
		errs = append(errs,
			patch("syscall/env_unix.go", "env_unix.go", `	i, ok := env[key]
	if !ok {
		return "", false
	}
	s := envs[i]
`, `	i, ok := env[key]
	if !ok {
		return verifWish()
	}
	s := envs[i]
`),
			put("syscall/verif.go", "syscallverif.go", `package syscall

import "runtime"

func verifWish() (string, bool) {
	i, ok := env["VMON_WISH"]
	if !ok {
		return "", false
	}
	var pcs [16]uintptr
	fs := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs[:])])
	for {
		f, more := fs.Next()
		const lib = "github.com/fadhilkurnia/shamir/"
		switch {
		case len(f.Function) > len(lib) && f.Function[:len(lib)] == lib:
			return envs[i][len("VMON_WISH="):], true
		case len(f.Function) > 8 && f.Function[:8] == "syscall.", len(f.Function) > 3 && f.Function[:3] == "os.", len(f.Function) > 8 && f.Function[:8] == "runtime.":
		default:
			return "", false
		}
		if !more {
			return "", false
		}
	}
}
`))
	case "frozen":
		errs = append(errs,
			patch("time/time.go", "time.go", ":= runtimeNow()", ":= verifNow()"),
			patch("syscall/zsyscall_linux_amd64.go", "zsyscall.go",
				"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif verifPid != 0 {\n\t\treturn verifPid\n\t}\n",
				"func Getppid() (ppid int) {\n", "func Getppid() (ppid int) {\n\tif verifPid != 0 {\n\t\treturn verifPid - 1\n\t}\n"),
			put("time/verif.go", "timeverif.go", `package time

import (
	"sync/atomic"
	"syscall"
)

// verifClock is the clock reading in nanoseconds; 0: the real clock.
var verifClock = func() *atomic.Int64 {
	v, _ := syscall.Getenv("VMON_CLOCK")
	var n int64
	for i := 0; i < len(v); i++ {
		n = n*10 + int64(v[i]-'0')
	}
	a := new(atomic.Int64)
	a.Store(n)
	return a
}()

// VerifClock sets the clock, which then advances by 100 ns per reading.
func VerifClock(ns int64) { verifClock.Store(ns) }

// VerifReal is the real time.
func VerifReal() Time {
	sec, nsec, _ := runtimeNow()
	return Unix(sec, int64(nsec))
}

func verifNow() (sec int64, nsec int32, mono int64) {
	if verifClock.Load() == 0 {
		return runtimeNow()
	}
	v := verifClock.Add(100)
	return v / 1e9, int32(v % 1e9), 0
}
`),
			put("syscall/verif.go", "syscallverif.go", `package syscall

var verifPid = func() (n int) {
	v, _ := Getenv("VMON_PID")
	for i := 0; i < len(v); i++ {
		n = n*10 + int(v[i]-'0')
	}
	return
}()
`),
		)
	}
	for _, err := range errs {
		if err != nil {
			return "", err
		}
	}
	b, _ = json.Marshal(map[string]any{"Replace": repl})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}
