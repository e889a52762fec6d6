//go:build !386

package mon

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"a.verif/vmon/ref"
	"github.com/fadhilkurnia/shamir/csprng"
	"github.com/fadhilkurnia/shamir/krawczyk"
	"github.com/fadhilkurnia/shamir/randomizer"
	"github.com/fadhilkurnia/shamir/shamir"
)

func init() {
	register(&Monitor{
		ID:      "C25",
		Rule:    "an evaluation is the search of everything one process put out (standard output and error, files, the data of its write, send and open system calls, environment, error texts) for the secrets, keys, coefficients and shares it handled, as they are and in the usual encodings; distinct cases are (operation, outcome, machine)",
		Configs: []string{"native", "noasm", "wished"},
		Need:    map[string]int64{"operations watched": 4000, "sensitive windows": 1000000},
		Assumptions: []string{"leaks are looked for as raw bytes, hexadecimal, base64, lists of decimal or hexadecimal numbers and quoted strings, with at least 8 bytes in a row (4 at the start and end of secrets and keys)",
			"system calls are watched where strace works; otherwise only the standard streams, files and error texts"},
		Stages: []Stage{
			{Name: "quiet", N: fixed(48, 480), Run: c25quiet, Configs: []string{"native", "noasm"}, RealEntropy: true, OpCPU: 600 * time.Second, Blocked: 600 * time.Second},
			{Name: "wished", N: fixed(20, 100), Run: c25wished, Configs: []string{"wished"}, RealEntropy: true, OpCPU: 600 * time.Second, Blocked: 600 * time.Second},
		},
	})
}

type quietSpec struct {
	Seed uint64
	Case int
	Ops  int
}

// quietReport is what a probe knows: everything sensitive, and error texts.
type quietReport struct {
	Heads   [][]byte // secrets and keys
	Bodies  [][]byte // coefficients, shares, source output
	Errors  []string
	Env     []string // new entries
	Done    map[string]int64
	Outcome map[string]bool
}

// QuietProbe runs operations with random secrets and reports on file 3 what
// must not be found elsewhere.
func QuietProbe(spec string) {
	var s quietSpec
	if err := json.Unmarshal([]byte(spec), &s); err != nil {
		panic(err)
	}
	pipe := os.NewFile(3, "report")
	m := Monitors["C25"]
	c := &C{M: m, S: &m.Stages[0], I: s.Case, Seed: s.Seed, distinct: map[uint64]struct{}{}, res: &Result{Counts: map[string]int64{}}, forked: true}
	c.src = rand.NewChaCha8(deriveKey(s.Seed, "quiet", s.Case))
	c.R = rand.New(c.src)
	env := map[string]bool{}
	for _, e := range os.Environ() {
		env[e] = true
	}
	rep := quietReport{Done: map[string]int64{}, Outcome: map[string]bool{}}
	head := func(b []byte) { rep.Heads = append(rep.Heads, append([]byte(nil), b...)) }
	body := func(b []byte) { rep.Bodies = append(rep.Bodies, append([]byte(nil), b...)) }
	note := func(op string, err error, pan any) {
		rep.Done[op]++
		out := "ok"
		if err != nil {
			out = "err"
			rep.Errors = append(rep.Errors, op+": "+err.Error())
		}
		if pan != nil {
			out = "panic"
			rep.Errors = append(rep.Errors, fmt.Sprint(op, ": ", pan))
		}
		rep.Outcome[op+" "+out] = true
	}
	split := func(sp Splitter, secret []byte, n, k int) (sh [][]byte) {
		head(secret)
		var err error
		var pan any
		func() {
			defer func() { pan = recover() }()
			sh, err = sp.Split(secret, n, k)
		}()
		note(sp.Name, err, pan)
		for _, x := range sh {
			body(x)
		}
		if sp.SSMS && len(sh) == n && n > 0 {
			if o, err := ref.OpenSSMS(sh, n, k); err == nil {
				head(o.Key)
				body(o.Cipher)
				body(coefRow(o.Meta))
			}
		} else if len(sh) == n && n >= k && k > 1 {
			if p, err := ref.Recover(sh, k); err == nil {
				body(coefRow(p))
			}
		}
		return
	}
	combine := func(cb Combiner, sh [][]byte, n, k int, how string) {
		for _, x := range sh {
			body(x)
		}
		var out []byte
		var err error
		var pan any
		func() {
			defer func() { pan = recover() }()
			out, err = cb.Combine(sh, n, k)
		}()
		note(cb.Name+how, err, pan)
		if len(out) > 0 {
			head(out)
		}
	}
	var lists [][]Splitter
	var comb []Combiner
	lists = append(lists, shamirSplitters(), ssmsSplitters())
	comb = append(shamirCombiners(), ssmsCombiners()...)
	for t := 0; t < s.Ops; t++ {
		sp := pick(c, lists[t%2])
		k := c.Range(2, 9)
		n := c.Range(k, 12)
		l := pick(c, []int{16, 20, 33, 64, 100, 400, 1500, 5000})
		if c.IntN(12) == 0 {
			k = c.Range(100, 255)
			n, l = c.Range(k, 255), 16
		}
		if t == s.Ops/2+s.Case/2%2 { // a large one, of one kind or the other
			n, k = 2, 2
			l = pick(c, []int{1 << 16, 1<<17 + 1, 200_000})
			if s.Case%12 == 3 || s.Case%12 == 8 {
				l = 1<<20 + 7
			}
		}
		secret := c.Bytes(l)
		if c.IntN(5) == 0 { // text
			for x := range secret {
				secret[x] = 'a' + secret[x]%26
			}
		}
		switch c.IntN(8) {
		case 0: // refused
			bad := pick(c, [][2]int{{3, 4}, {300, 2}, {3, 1}, {0, 0}, {-1, 2}, {256, 256}, {5, -3}})
			split(sp, secret, bad[0], bad[1])
			continue
		}
		sh := split(sp, secret, n, k)
		if len(sh) != n {
			continue
		}
		for r := 0; r < 3; r++ {
			cb := pick(c, comb)
			if r == 0 {
				for cb.SSMS != sp.SSMS {
					cb = pick(c, comb)
				}
				combine(cb, subset(c, sh, k), n, k, "")
				continue
			}
			how := ""
			in := clone(subset(c, sh, c.Range(1, n)))
			switch c.IntN(8) {
			case 0:
				in, how = in[:min(len(in), k-1)], " of too few"
			case 1:
				in, how = append(in, in[0]), " of one twice"
			case 2:
				in[0], how = in[0][:c.Range(0, len(in[0])-1)], " of a cut one"
			case 3:
				in[0], how = append(in[0], 7), " of a longer one"
			case 4:
				in[0], how = c.Bytes(len(in[0])), " of foreign bytes"
			case 5:
				x := pick(c, in)
				x[c.IntN(len(x))] ^= byte(c.Range(1, 255))
				how = " of a changed one"
			case 6:
				in[0], how = nil, " with a hole"
			case 7:
				x := pick(c, in)
				for y := 16; y < min(21, len(x)); y++ {
					x[y] ^= byte(c.Range(1, 255)) // the length, or the point
				}
				how = " of another length"
			}
			combine(cb, in, n, k+c.IntN(2)*c.Range(-2, 2), how)
			if !sp.SSMS && r == 1 {
				var out [][]byte
				var err error
				var pan any
				func() {
					defer func() { pan = recover() }()
					out, err = shamir.Regenerate(in, c.Range(-1, 9))
				}()
				note("shamir.Regenerate"+how, err, pan)
				for _, x := range out {
					body(x)
				}
			}
		}
		switch c.IntN(6) {
		case 0:
			kiv := c.Bytes(32)
			head(kiv)
			r := csprng.NewCSPRNGWithKeyIV(kiv)
			b := make([]byte, 64)
			r.Read(b)
			body(b)
			note("csprng.NewCSPRNGWithKeyIV", nil, nil)
			r2 := csprng.NewCSPRNG()
			sh, err := shamir.SplitWithRandomizer(secret, n, k, r)
			note("shamir.SplitWithRandomizer with a keyed source", err, nil)
			for _, x := range sh {
				body(x)
			}
			sh, err = krawczyk.SplitWithRandomizer(secret, n, k, r2)
			note("krawczyk.SplitWithRandomizer with a source", err, nil)
			for _, x := range sh {
				body(x)
			}
		case 1:
			b := make([]byte, 64)
			randomizer.NewRandomizer().Read(b)
			body(b)
			note("randomizer.NewRandomizer", nil, nil)
		case 2:
			w := newWorker()
			head(secret)
			_, err := w.Split(string(c.Bytes(3)), secret, n, k)
			note("worker.Split(unknown)", err, nil)
			_, err = w.Combine("none", sh, n, k)
			note("worker.Combine(unknown)", err, nil)
		}
	}
	time.Sleep(30 * time.Millisecond) // what still goes out
	for _, e := range os.Environ() {
		if !env[e] {
			rep.Env = append(rep.Env, e)
		}
	}
	b, _ := json.Marshal(rep)
	pipe.Write(b)
}

// strace tells whether system calls of own processes can be watched.
var stracePath = sync.OnceValue(func() string {
	p, err := exec.LookPath("strace")
	if err != nil {
		return ""
	}
	if exec.Command(p, "-f", "-o", os.DevNull, "-e", "trace=write", "true").Run() != nil {
		return ""
	}
	return p
})

var straceStr = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)

func c25quiet(c *C, i int) { c25watch(c, i, "") }

// c25wished: every environment variable the library may look for is set.
func c25wished(c *C, i int) {
	c25watch(c, i, []string{"1", "verif.log", "true", "debug", "/dev/stderr"}[i/4%5])
}

func c25watch(c *C, i int, wish string) {
	self, err := os.Executable()
	if err != nil {
		Inconclusive("%v", err)
	}
	dir, err := os.MkdirTemp(c.Dir, "quiet")
	if err != nil {
		Inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	for _, d := range []string{"cwd", "tmp", "home", "run"} {
		os.Mkdir(filepath.Join(dir, d), 0o755)
	}
	trace := i%2 == 1 && stracePath() != ""
	s := quietSpec{Seed: c.Seed, Case: c.I, Ops: 60}
	spec, _ := json.Marshal(s)
	args := []string{self, "-quietprobe", string(spec)}
	tr := filepath.Join(dir, "trace")
	if trace {
		args = append([]string{stracePath(), "-f", "-qq", "-xx", "-s", "1048576", "-e", "signal=none", "-e",
			"trace=write,pwrite64,writev,pwritev,pwritev2,sendto,sendmsg,sendmmsg,open,openat,creat,mkdir,mkdirat,symlink,symlinkat,link,linkat,rename,renameat,renameat2,connect,bind,execve,execveat,prctl,setxattr,memfd_create,syslog,add_key",
			"-o", tr}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = filepath.Join(dir, "cwd")
	cmd.Env = append(os.Environ(), "TMPDIR="+filepath.Join(dir, "tmp"), "HOME="+filepath.Join(dir, "home"), "XDG_RUNTIME_DIR="+filepath.Join(dir, "run"),
		fmt.Sprintf("GOMAXPROCS=%d", []int{1, 2, 4, 8}[i%4]))
	if i%6 == 2 { // settings under which programs like to talk
		cmd.Env = append(cmd.Env, "DEBUG=1", "VERBOSE=1", "TRACE=1", "LOG_LEVEL=debug", "SHAMIR_DEBUG=1")
	}
	if wish != "" {
		cmd.Env = append(cmd.Env, "VMON_WISH="+wish)
	}
	r, w, err := os.Pipe()
	if err != nil {
		Inconclusive("%v", err)
	}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr, cmd.ExtraFiles = &stdout, &stderr, []*os.File{w}
	if err := cmd.Start(); err != nil {
		Inconclusive("%v", err)
	}
	w.Close()
	var rep quietReport
	derr := json.NewDecoder(r).Decode(&rep)
	r.Close()
	if err := cmd.Wait(); err != nil || derr != nil {
		if strings.Contains(stderr.String(), "github.com/fadhilkurnia/shamir/") {
			c.Violate("crash", "the process ended with %v: %s", err, tailOf(stderr.String()))
			return
		}
		Inconclusive("the probe ended with %v %v: %s", err, derr, tailOf(stderr.String()))
	}
	// what must not appear
	long, short := map[uint64]string{}, map[uint32]string{}
	for _, l := range [][][]byte{rep.Heads, rep.Bodies} {
		for _, b := range l {
			for x := 0; x+8 <= len(b); x++ {
				if v := binary.LittleEndian.Uint64(b[x:]); !dull(b[x : x+8]) {
					long[v] = "share, coefficients or output"
				}
			}
		}
	}
	for _, b := range rep.Heads {
		for x := 0; x+8 <= len(b); x++ {
			if v := binary.LittleEndian.Uint64(b[x:]); !dull(b[x : x+8]) {
				long[v] = "secret or key"
			}
		}
		if len(b) >= 8 {
			for _, p := range [][]byte{b[:4], b[len(b)-4:]} {
				if !texty(p) {
					short[binary.LittleEndian.Uint32(p)] = "start or end of a secret or key"
				}
			}
		}
	}
	c.Obs("sensitive windows", int64(len(long)))
	for op, n := range rep.Done {
		c.Obs("operations watched", n)
		_ = op
	}
	for o := range rep.Outcome {
		c.Distinct(o, trace)
	}
	search := func(where string, data []byte) bool {
		c.Eval(1)
		c.Obs("bytes of output searched", int64(len(data)))
		for _, v := range decodings(data) {
			for x := 0; x+4 <= len(v.b); x++ {
				what := ""
				if x+8 <= len(v.b) {
					what = long[binary.LittleEndian.Uint64(v.b[x:])]
				}
				if what == "" && v.how != "base64" { // every long word is some base64
					what = short[binary.LittleEndian.Uint32(v.b[x:])]
				}
				if what != "" {
					c.ViolateD(map[string]any{"output": string(data[:min(len(data), 600)])}, "leak", "%s shows part of a %s (%s, at %d)", where, what, v.how, x)
					return false
				}
			}
		}
		return true
	}
	if !search("standard output", stdout.Bytes()) || !search("standard error", stderr.Bytes()) {
		return
	}
	sort.Strings(rep.Errors)
	for _, e := range rep.Errors {
		if !search("an error text", []byte(e)) {
			return
		}
	}
	for _, e := range rep.Env {
		if !search("the environment", []byte(e)) {
			return
		}
	}
	ok := true
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || p == tr || !ok {
			return nil
		}
		c.Obs("files found", 1)
		b, err := os.ReadFile(p)
		if err == nil {
			ok = search("file "+strings.TrimPrefix(p, dir), b) && search("file name "+fi.Name(), []byte(fi.Name()))
		}
		return nil
	})
	if !ok {
		return
	}
	if trace {
		b, err := os.ReadFile(tr)
		if err != nil {
			Inconclusive("%v", err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			_, call, found := strings.Cut(l, " ")
			call = strings.TrimSpace(call)
			if !found || strings.HasPrefix(call, "write(3,") || strings.HasPrefix(call, "execve(") && strings.Contains(call, `\x2d\x71\x75\x69\x65\x74`) {
				continue
			}
			name, _, _ := strings.Cut(call, "(")
			c.Obs("system calls watched", 1)
			for _, m := range straceStr.FindAllStringSubmatch(call, -1) {
				raw, _ := hex.DecodeString(strings.ReplaceAll(m[1], `\x`, ""))
				if !search("system call "+name, raw) {
					return
				}
			}
		}
	}
}

// dull bytes may appear anywhere, as in the small numbers which the runtime
// writes to its own descriptors.
func dull(b []byte) bool {
	n := 0
	for x, v := range b {
		if bytes.IndexByte(b[:x], v) < 0 {
			n++
		}
	}
	return n < 5
}

// texty bytes may be part of a word.
func texty(b []byte) bool {
	n := 0
	for _, v := range b {
		if v >= 32 && v < 127 || v == 0 || v == 255 {
			n++
		}
	}
	return n >= 3 || bytes.Count(b, b[:1]) > 2
}

type decoded struct {
	how string
	b   []byte
}

var (
	reHex  = regexp.MustCompile(`[0-9a-fA-F]{8,}`)
	reHexs = regexp.MustCompile(`(?:(?:0x|\\x|%)?[0-9a-fA-F]{2}(?:[^0-9a-fA-F\n]{1,4}|$)){4,}|(?:(?:0x|\\x|%)[0-9a-fA-F]{1,2}[^0-9a-fA-F\n]{0,3}){4,}`)
	reB64  = regexp.MustCompile(`[A-Za-z0-9+/_-]{8,}`)
	reDec  = regexp.MustCompile(`\d{1,3}(?:[^0-9\n]{1,3}\d{1,3}){3,}`)
	reNum  = regexp.MustCompile(`\d+`)
	rePair = regexp.MustCompile(`(?:0x|\\x|%)?([0-9a-fA-F]{1,2})`)
	reQuot = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)
	reBin  = regexp.MustCompile(`[01]{8}(?:[^01\n]{0,3}[01]{8}){3,}`)
	reBin8 = regexp.MustCompile(`[01]{8}`)
)

// decodings reads data in every encoding in which bytes are commonly shown.
func decodings(data []byte) []decoded {
	out := []decoded{{"as it is", data}}
	for _, m := range reHex.FindAll(data, -1) {
		for off := 0; off < 2; off++ {
			h := m[off:]
			b, err := hex.DecodeString(string(h[:len(h)/2*2]))
			if err == nil {
				out = append(out, decoded{"hexadecimal", b})
			}
		}
	}
	for _, m := range reHexs.FindAll(data, -1) {
		var b []byte
		for _, p := range rePair.FindAllSubmatch(m, -1) {
			v, _ := strconv.ParseUint(string(p[1]), 16, 8)
			b = append(b, byte(v))
		}
		out = append(out, decoded{"list of hexadecimal numbers", b})
	}
	for _, m := range reB64.FindAll(data, -1) {
		t := strings.NewReplacer("-", "+", "_", "/").Replace(string(m))
		for off := 0; off < 4; off++ {
			if len(t) < off+6 {
				break
			}
			b, err := base64.RawStdEncoding.DecodeString(t[off : off+(len(t)-off)/4*4])
			if err == nil {
				out = append(out, decoded{"base64", b})
			}
		}
	}
	for _, m := range reDec.FindAll(data, -1) {
		var b []byte
		for _, p := range reNum.FindAll(m, -1) {
			if v, err := strconv.Atoi(string(p)); err == nil {
				b = append(b, byte(v))
			}
		}
		out = append(out, decoded{"list of numbers", b})
	}
	for _, m := range reQuot.FindAll(data, -1) {
		if t, err := strconv.Unquote(string(m)); err == nil {
			out = append(out, decoded{"quoted string", []byte(t)})
		}
	}
	for _, m := range reBin.FindAll(data, -1) {
		var b []byte
		for _, p := range reBin8.FindAll(m, -1) {
			v, _ := strconv.ParseUint(string(p), 2, 8)
			b = append(b, byte(v))
		}
		out = append(out, decoded{"binary digits", b})
	}
	return out
}
