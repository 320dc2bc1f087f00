package site

import (
	"runtime"

	"flychain/log"
)

// Statements of this file and of the helpers inlined into it share one
// function.

//go:noinline
func InlMixed(l log.Logger, m string, lvl log.Lvl, which int) (line int) {
	switch which % 5 {
	case 0:
		_, _, line, _ = runtime.Caller(0); log.Output(m, lvl, 0)
	case 1:
		inlLog(m, lvl, 0); return HelpLines[0]
	case 2:
		_, _, line, _ = runtime.Caller(0); inlLog(m, lvl, 1)
	case 3:
		inlInfo(l, m); return HelpLines[1]
	case 4:
		_, _, line, _ = runtime.Caller(0); l.Info(m)
	}
	return line
}

// InlOrder interleaves them.
//
//go:noinline
func InlOrder(l log.Logger, m string, lvl log.Lvl) (n int) { _, _, n, _ = runtime.Caller(0); inlLog(m, lvl, 0); log.Output(m, lvl, 0); inlLog(m, lvl, 1); return n }
