//go:build !386

package mon

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const limitLen = 1<<32 + 10

// c01limitNames are the entry points tried: the first in every run, the others,
// which draw all their randomness before they look at the secret, only with
// the thorough tier.
var c01limitNames = []string{"shamir.SplitP", "shamir.Split", "shamir.SplitWithRandomizer"}

// LimitProbe splits a secret of 4 GiB + 10 bytes, of which only the first page
// can be read. A split that succeeds has not looked at the rest.
func LimitProbe(name string) {
	b, err := syscall.Mmap(-1, 0, limitLen, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		fmt.Println("NOSPACE")
		return
	}
	if syscall.Mprotect(b[:4096], syscall.PROT_READ|syscall.PROT_WRITE) != nil {
		fmt.Println("NOSPACE")
		return
	}
	copy(b, bytes.Repeat([]byte{0x41}, 4096))
	fmt.Printf("SECRET %x\n", uintptr(unsafe.Pointer(unsafe.SliceData(b))))
	for _, sp := range shamirSplitters() {
		if sp.Name == name {
			sh, err := sp.Split(b, 2, 2)
			if err != nil {
				fmt.Printf("REFUSED %v\n", err)
				return
			}
			fmt.Printf("RETURNED %d\n", len(sh))
		}
	}
}

func c01limit(c *C, i int) {
	name := c01limitNames[i]
	self, err := os.Executable()
	if err != nil {
		Inconclusive("%v", err)
	}
	cmd := exec.Command(self, "-limitprobe", name)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=none")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		Inconclusive("%v", err)
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	late := !timer.Stop()
	s := out.String()
	var base uint64
	if j := strings.Index(s, "SECRET "); j >= 0 {
		base, _ = strconv.ParseUint(strings.Fields(s[j+7:])[0], 16, 64)
	}
	var addr uint64
	for _, mark := range []string{"unexpected fault address 0x", "addr=0x"} {
		if j := strings.Index(s, mark); j >= 0 && addr == 0 {
			f := s[j+len(mark):]
			e := 0
			for e < len(f) && strings.IndexByte("0123456789abcdef", f[e]) >= 0 {
				e++
			}
			addr, _ = strconv.ParseUint(f[:e], 16, 64)
		}
	}
	c.Eval(1)
	c.Distinct("limit", name)
	switch {
	case strings.Contains(s, "RETURNED"):
		c.Violate("truncated", "%s of %d bytes succeeded without reading the secret beyond its first 4096 bytes: the rest is not in the shares", name, limitLen)
	case strings.Contains(s, "REFUSED"):
		c.Obs("lengths above 4 GiB refused", 1)
	case base != 0 && addr >= base+4096 && addr < base+limitLen:
		c.Obs("lengths above 4 GiB read", 1)
	default: // no memory, no time
		c.Obs("lengths above 4 GiB not observed", 1)
		if os.Getenv("VMON_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, late, s[:min(len(s), 2000)])
		}
	}
}
