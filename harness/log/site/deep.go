package site

import (
	"runtime"

	"flychain/log"
)

// Chains of n calls through three functions, each at a line of its own, as
// steered by bits, down to an Output. Lines come back innermost first.

//go:noinline
func DeepA(m string, lvl log.Lvl, depth, n int, bits uint64) (int, []int) { _, _, l, _ := runtime.Caller(0); if n == 0 { return l, []int{AOut(m, lvl, depth)} }; if bits%3 == 0 { k, s := DeepA(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }; if bits%3 == 1 { k, s := DeepB(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }; k, s := DeepC(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }

//go:noinline
func DeepB(m string, lvl log.Lvl, depth, n int, bits uint64) (int, []int) { _, _, l, _ := runtime.Caller(0); if n == 0 { return l, []int{AOut(m, lvl, depth)} }; if bits%3 == 0 { k, s := DeepA(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }; if bits%3 == 1 { k, s := DeepB(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }; k, s := DeepC(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }

//go:noinline
func DeepC(m string, lvl log.Lvl, depth, n int, bits uint64) (int, []int) { _, _, l, _ := runtime.Caller(0); if n == 0 { return l, []int{AOut(m, lvl, depth)} }; if bits%3 == 0 { k, s := DeepA(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }; if bits%3 == 1 { k, s := DeepB(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }; k, s := DeepC(m, lvl, depth, n-1, bits/3+bits<<60); return l, append(s, k) }

