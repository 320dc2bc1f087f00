package site

import (
	"runtime"

	"flychain/log"
	"github.com/go-stack/stack"
)

// One line per site, so that the line read by runtime.Caller is the call site.

func ATrace(l log.Logger, m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); l.Trace(m, ctx...); return n }
func ADebug(l log.Logger, m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); l.Debug(m, ctx...); return n }
func AInfo(l log.Logger, m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); l.Info(m, ctx...); return n }
func AWarn(l log.Logger, m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); l.Warn(m, ctx...); return n }
func AError(l log.Logger, m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); l.Error(m, ctx...); return n }

func APTrace(m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Trace(m, ctx...); return n }
func APDebug(m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Debug(m, ctx...); return n }
func APInfo(m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); log.Info(m, ctx...); return n }
func APWarn(m string, ctx ...interface{}) int  { _, _, n, _ := runtime.Caller(0); log.Warn(m, ctx...); return n }
func APError(m string, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Error(m, ctx...); return n }

//go:noinline
func AOut(m string, lvl log.Lvl, depth int, ctx ...interface{}) int { _, _, n, _ := runtime.Caller(0); log.Output(m, lvl, depth, ctx...); return n }

//go:noinline
func AOut1(m string, lvl log.Lvl, depth int, ctx ...interface{}) (int, int) { _, _, n, _ := runtime.Caller(0); return n, AOut(m, lvl, depth, ctx...) }

//go:noinline
func AOut2(m string, lvl log.Lvl, depth int, ctx ...interface{}) (a, b, c int) { _, _, n, _ := runtime.Caller(0); x, y := AOut1(m, lvl, depth, ctx...); return n, x, y }

// ACall returns the stack.Call of a line of this file.
func ACall(k int) stack.Call {
	switch k % 3 {
	case 0:
		return stack.Caller(0)
	case 1:
		return stack.Caller(0)
	}
	return stack.Caller(0)
}
