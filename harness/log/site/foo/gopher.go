package foo

import (
	"runtime"

	"flychain/log"
	"github.com/go-stack/stack"
)

// One line per site, so that the line read by runtime.Caller is the call site.

func GTrace(l log.Logger, m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); l.Trace(m, ctx...); return n }
func GDebug(l log.Logger, m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); l.Debug(m, ctx...); return n }
func GInfo(l log.Logger, m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); l.Info(m, ctx...); return n }
func GWarn(l log.Logger, m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); l.Warn(m, ctx...); return n }
func GError(l log.Logger, m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); l.Error(m, ctx...); return n }

func GPTrace(m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Trace(m, ctx...); return n }
func GPDebug(m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Debug(m, ctx...); return n }
func GPInfo(m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); log.Info(m, ctx...); return n }
func GPWarn(m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); log.Warn(m, ctx...); return n }
func GPError(m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Error(m, ctx...); return n }

//go:noinline
func GOut(m string, lvl log.Lvl, depth int, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Output(m, lvl, depth, ctx...); return n }

//go:noinline
func GOut1(m string, lvl log.Lvl, depth int, ctx ...interface{}) (int, int) { _, _, n, _ := runtime.Caller(0); return n, GOut(m, lvl, depth, ctx...) }

//go:noinline
func GOut2(m string, lvl log.Lvl, depth int, ctx ...interface{}) (a, b, c int) { _, _, n, _ := runtime.Caller(0); x, y := GOut1(m, lvl, depth, ctx...); return n, x, y }

// GCall returns the stack.Call of a line of this file.
func GCall(k int) stack.Call {
	switch k % 3 {
	case 0:
		return stack.Caller(0)
	case 1:
		return stack.Caller(0)
	}
	return stack.Caller(0)
}
