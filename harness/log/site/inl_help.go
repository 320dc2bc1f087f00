package site

import (
	"runtime"

	"flychain/log"
)

// Small enough to be inlined where they are called, in inl_use.go.

func inlLog(m string, lvl log.Lvl, depth int) { log.Output(m, lvl, depth) }

func inlInfo(l log.Logger, m string) { l.Info(m) }

// HelpLines are the lines of the two statements above.
var HelpLines = func() [2]int { _, _, n, _ := runtime.Caller(0); return [2]int{n - 5, n - 3} }()
