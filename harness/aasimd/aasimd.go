// Package aasimd masks CPU features before any SIMD-using package reads them.
//
// Go initialises, among the packages whose imports are initialised, the one
// with the smallest import path first. "a.verif/..." sorts before
// "github.com/...", and this package needs only cpuid and os, so its init runs
// before that of the library's galois package.
package aasimd

import (
	"os"
	"time"

	"github.com/klauspost/cpuid/v2"
)

// Tier is the instruction-set tier forced by the environment ("" is native).
var Tier = os.Getenv("VMON_SIMD")

// T0 is a time before the initialisation of the library's packages.
var T0 time.Time

func init() {
	T0 = time.Now()
	avx := []cpuid.FeatureID{cpuid.AVX, cpuid.AVX2, cpuid.AVX512F, cpuid.AVX512BW, cpuid.AVX512VL, cpuid.AVX512DQ, cpuid.GFNI}
	ssse3 := []cpuid.FeatureID{cpuid.SSSE3, cpuid.SSE3, cpuid.SSE4, cpuid.SSE42}
	sse2 := []cpuid.FeatureID{cpuid.SSE2}
	switch Tier {
	case "", "native":
	case "ssse3":
		cpuid.CPU.Disable(avx...)
	case "sse2":
		cpuid.CPU.Disable(avx...)
		cpuid.CPU.Disable(ssse3...)
	case "none":
		cpuid.CPU.Disable(avx...)
		cpuid.CPU.Disable(ssse3...)
		cpuid.CPU.Disable(sse2...)
	default:
		panic("unknown VMON_SIMD " + Tier)
	}
}

// Describe says what the library can see.
func Describe() string {
	s := ""
	for _, f := range []struct {
		n  string
		id cpuid.FeatureID
	}{{"sse2", cpuid.SSE2}, {"ssse3", cpuid.SSSE3}, {"avx2", cpuid.AVX2}, {"avx512bw", cpuid.AVX512BW}} {
		if cpuid.CPU.Supports(f.id) {
			s += " " + f.n
		}
	}
	return "visible:" + s
}
