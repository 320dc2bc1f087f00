package log

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"flychain/log"
	"github.com/go-stack/stack"
	"log/syslog"
	"verifharness/vk"
)

// ------------------------------------------------------------------ C20

func cleanCtx(ctx []interface{}) string {
	s := make([]string, len(ctx))
	for i, v := range ctx {
		s[i] = fmt.Sprint(v)
	}
	return strings.Join(s, "\x00")
}

type event struct {
	sink int
	ctx  string
	msg  string
}

type world struct {
	r     *rand.Rand
	fail  []error // per sink
	log   []event // what happened
	desc  string
	inner atomic.Int32
}

// Failures as real sinks report them.
var knownErrs = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrClosed, os.ErrNotExist, os.ErrPermission, os.ErrDeadlineExceeded, net.ErrClosed, context.Canceled, context.DeadlineExceeded, syscall.EPIPE, syscall.ENOSPC, syscall.EAGAIN, syscall.ECONNRESET,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}, &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, fmt.Errorf("wrapped: %w", io.ErrClosedPipe), errors.New(""), &ptrErr{"custom"}}

// build returns a handler and a function predicting what it does to a
// context: the events it causes, the context it leaves and its error. Only
// combinators whose effect on the shared record is specified are nested under
// multi-way ones.
func (w *world) build(depth int, c *vk.C) (log.Handler, func(ctx []interface{}, msg string) ([]event, []interface{}, error)) {
	r := w.r
	k := r.Intn(9)
	if depth == 0 {
		k = 8
	}
	switch k {
	case 0: // multi
		n := r.Intn(4)
		if r.Intn(50) == 0 {
			n = 10 + r.Intn(30)
			depth = 1
		}
		var hs []log.Handler
		var ps []func([]interface{}, string) ([]event, []interface{}, error)
		w.desc += "multi("
		for i := 0; i < n; i++ {
			h, p := w.build(depth-1, c)
			hs, ps = append(hs, h), append(ps, p)
			w.desc += ","
		}
		w.desc += ")"
		return log.MultiHandler(hs...), func(ctx []interface{}, msg string) (ev []event, out []interface{}, err error) {
			out = ctx
			for _, p := range ps {
				e, o, _ := p(out, msg)
				ev, out = append(ev, e...), o
			}
			return ev, out, nil
		}
	case 1: // failover
		n := 1 + r.Intn(3)
		if r.Intn(50) == 0 {
			n = 10 + r.Intn(30)
			depth = 1
		}
		var hs []log.Handler
		var ps []func([]interface{}, string) ([]event, []interface{}, error)
		w.desc += "failover("
		for i := 0; i < n; i++ {
			h, p := w.build(depth-1, c)
			hs, ps = append(hs, h), append(ps, p)
			w.desc += ","
		}
		w.desc += ")"
		return log.FailoverHandler(hs...), func(ctx []interface{}, msg string) (ev []event, out []interface{}, err error) {
			out = ctx
			for i, p := range ps {
				e, o, er := p(out, msg)
				ev, out, err = append(ev, e...), o, er
				if err == nil {
					return
				}
				out = append(append([]interface{}{}, out...), fmt.Sprintf("failover_err_%d", i), err)
			}
			return
		}
	case 2:
		w.desc += "sync("
		h, p := w.build(depth-1, c)
		w.desc += ")"
		return log.SyncHandler(h), p
	case 3:
		w.desc += "lazy("
		h, p := w.build(depth-1, c)
		w.desc += ")"
		return log.LazyHandler(h), p
	case 4:
		ok := r.Intn(2) == 0
		w.desc += fmt.Sprint("filter", ok, "(")
		h, p := w.build(depth-1, c)
		w.desc += ")"
		return log.FilterHandler(func(*log.Record) bool { return ok }, h), func(ctx []interface{}, msg string) ([]event, []interface{}, error) {
			if !ok {
				return nil, ctx, nil
			}
			return p(ctx, msg)
		}
	case 5:
		w.desc += "discard"
		return log.DiscardHandler(), func(ctx []interface{}, msg string) ([]event, []interface{}, error) { return nil, ctx, nil }
	case 6:
		w.desc += "func("
		h, p := w.build(depth-1, c)
		w.desc += ")"
		return log.FuncHandler(func(r *log.Record) error { return h.Log(r) }), p
	}
	id := len(w.fail)
	var err error
	if r.Intn(2) == 0 {
		err = fmt.Errorf("fail%d", id)
		if k := r.Intn(2 * len(knownErrs)); k < len(knownErrs) {
			err = knownErrs[k]
		}
	}
	w.fail = append(w.fail, err)
	w.desc += fmt.Sprint("s", id, map[bool]string{true: "!", false: ""}[err != nil])
	return log.FuncHandler(func(rec *log.Record) error {
			w.log = append(w.log, event{id, cleanCtx(rec.Ctx), rec.Msg})
			return err
		}), func(ctx []interface{}, msg string) ([]event, []interface{}, error) {
			return []event{{id, cleanCtx(ctx), msg}}, ctx, err
		}
}

func combinators(c *vk.C, i int) {
	r := c.Rng("comb", i)
	w := &world{r: r}
	h, predict := w.build(3, c)
	for j := 0; j < 3; j++ {
		ctx := []interface{}{"k", j}
		msg := fmt.Sprint("m", j)
		rec := mkRecord(r, log.Lvl(r.Intn(6)), msg, append([]interface{}{}, ctx...))
		w.log = nil
		err := h.Log(rec)
		ev, out, werr := predict(ctx, msg)
		if fmt.Sprint(w.log) != fmt.Sprint(ev) || err != werr || cleanCtx(rec.Ctx) != cleanCtx(out) {
			c.Violate("combinator", "%s: wrote %q, want %q; error %v, want %v; context left %v, want %v", w.desc, fmt.Sprint(w.log), fmt.Sprint(ev), err, werr, rec.Ctx, out)
		}
		c.Count("records", 1)
	}
	c.Eval(w.desc)
	c.Sample("%s", w.desc)
}

// longChain: many sinks in one failover chain or multi handler, the failing
// ones mostly in front.
func longChain(c *vk.C, i int) {
	r := c.Rng("chain", i)
	n := 8 + r.Intn(40)
	if i%5 == 0 {
		n = 100 + r.Intn(1200)
	}
	works := r.Intn(n + 1)
	multi := i%3 == 0
	var hs []log.Handler
	var seen []int
	errs := make([]error, n)
	for k := 0; k < n; k++ {
		if k < works || r.Intn(2) == 0 && k != works {
			errs[k] = fmt.Errorf("fail%d", k)
		}
		hs = append(hs, log.FuncHandler(func(*log.Record) error {
			seen = append(seen, k)
			return errs[k]
		}))
	}
	rec := mkRecord(r, log.LvlInfo, "m", []interface{}{"k", 1})
	want, wctx, last := n, []interface{}{"k", 1}, error(nil)
	var err error
	if multi {
		err = log.MultiHandler(hs...).Log(rec)
	} else {
		for want = 0; want < n; want++ {
			if last = errs[want]; last == nil {
				want++
				break
			}
			wctx = append(wctx, fmt.Sprintf("failover_err_%d", want), last)
		}
		err = log.FailoverHandler(hs...).Log(rec)
	}
	for k := range seen {
		if seen[k] != k {
			c.Violate("chain order", "sink %d was the %dth of %d to get the record", seen[k], k, n)
		}
	}
	if len(seen) != want || err != last {
		c.Violate("chain", "of %d sinks (multi: %v), the first %d failing, %d got the record, want %d; error %v, want %v", n, multi, works, len(seen), want, err, last)
	}
	if g, w := cleanCtx(rec.Ctx), cleanCtx(wctx); g != w {
		c.Violate("chain context", "%d sinks (multi: %v), the first %d failing: context %q, want %q", n, multi, works, g, w)
	}
	c.Count("sinks of long chains", n)
	c.Eval(fmt.Sprint("chain", n, works, multi))
}

func lazyCase(c *vk.C, i int) {
	r := c.Rng("lazy", i)
	calls := 0
	var ctx, want []interface{}
	bad := false
	key := ""
	n := vk.Tail(r, 40, 6, 60)
	if i%1500 == 11 {
		n = 300 + r.Intn(1000)
	}
	expCalls := 0
	state, at := 0, 0
	current := func() int { at++; return at }
	for k := 0; k < n; k++ {
		ctx = append(ctx, fmt.Sprint("k", k))
		want = append(want, fmt.Sprint("k", k))
		kind := r.Intn(18)
		key += fmt.Sprint(kind)
		v := r.Intn(1000)
		switch kind {
		case 0:
			ctx = append(ctx, v)
			want = append(want, v)
		case 1:
			ctx = append(ctx, log.Lazy{Fn: func() int { calls++; return v }})
			want = append(want, v)
			expCalls++
		case 2:
			ctx = append(ctx, log.Lazy{Fn: func() (string, int) { calls++; return "s", v }})
			want = append(want, []interface{}{"s", v})
			expCalls++
		case 3:
			ctx = append(ctx, log.Lazy{Fn: func() error { calls++; return nil }})
			want = append(want, nil)
			expCalls++
		case 4:
			ctx = append(ctx, log.Lazy{Fn: v})
			want = append(want, someErr)
			bad = true
		case 5:
			ctx = append(ctx, log.Lazy{Fn: func(int) int { return 0 }})
			want = append(want, someErr)
			bad = true
		case 6:
			ctx = append(ctx, log.Lazy{Fn: func() {}})
			want = append(want, someErr)
			bad = true
		case 7:
			ctx = append(ctx, log.Lazy{Fn: "str"})
			want = append(want, someErr)
			bad = true
		case 8:
			ctx = append(ctx, log.Lazy{Fn: func() *int { calls++; return nil }})
			want = append(want, (*int)(nil))
			expCalls++
		case 9:
			ctx = append(ctx, log.Lazy{Fn: func() bool { calls++; return v%2 == 0 }})
			want = append(want, v%2 == 0)
			expCalls++
		case 10:
			ctx = append(ctx, log.Lazy{Fn: func() (int, string, bool, error, interface{}) { calls++; return v, "t", true, nil, v }})
			want = append(want, []interface{}{v, "t", true, nil, v})
			expCalls++
		case 11: // the current value of something that changes
			ctx = append(ctx, log.Lazy{Fn: current})
			want = append(want, state+1)
			state++
		case 13: // an error among the results is one of them
			ctx = append(ctx, log.Lazy{Fn: func() (int, error) { calls++; return v, nil }})
			want = append(want, []interface{}{v, nil})
			expCalls++
		case 14:
			ctx = append(ctx, log.Lazy{Fn: func() (int, error) { calls++; return v, someErr }})
			want = append(want, []interface{}{v, someErr})
			expCalls++
		case 15:
			ctx = append(ctx, log.Lazy{Fn: func() (interface{}, bool) { calls++; return nil, v%2 == 0 }})
			want = append(want, []interface{}{nil, v%2 == 0})
			expCalls++
		case 16:
			ctx = append(ctx, log.Lazy{Fn: func() error { calls++; return someErr }})
			want = append(want, givenErr)
			expCalls++
		case 17:
			ctx = append(ctx, log.Lazy{Fn: func() (error, error) { calls++; return nil, nil }})
			want = append(want, []interface{}{nil, nil})
			expCalls++
		case 12:
			ctx = append(ctx, log.Lazy{Fn: func() (string, error, float64) { calls++; return "u", someErr, 1.5 }})
			want = append(want, []interface{}{"u", someErr, 1.5})
			expCalls++
		}
	}
	if bad {
		want = append(want, errorKey, sentinel)
	}
	sink := &col{}
	h := log.LazyHandler(sink)
	filtered := r.Intn(4) == 0
	var hh log.Handler = h
	if filtered {
		hh = log.LvlFilterHandler(log.LvlCrit, h)
	}
	if r.Intn(2) == 0 {
		hh = log.LazyHandler(hh) // evaluates before the filter
		filtered2 := filtered
		if !c.NoPanic("lazy", func() { hh.Log(mkRecord(r, log.LvlInfo, "m", append([]interface{}{}, ctx...))) }) {
			return
		}
		if calls != expCalls {
			c.Violate("lazy calls", "lazy values evaluated %d times, want %d (context %v)", calls, expCalls, ctx)
		}
		if filtered2 {
			sink.take()
			return
		}
	} else {
		if !c.NoPanic("lazy", func() { hh.Log(mkRecord(r, log.LvlInfo, "m", append([]interface{}{}, ctx...))) }) {
			return
		}
		if filtered {
			if calls != 0 {
				c.Violate("lazy eager", "%d lazy values evaluated for a record that was filtered out", calls)
			}
			c.Eval("lazy filtered " + key)
			return
		}
		if calls != expCalls {
			c.Violate("lazy calls", "lazy values evaluated %d times, want %d (context %v)", calls, expCalls, ctx)
		}
	}
	g := sink.take()
	c.Eval("lazy " + key)
	if len(g) != 1 || len(g[0].ctx) != len(want) {
		c.Violate("lazy shape", "lazy context %v came out as %v", ctx, g)
		return
	}
	for k, x := range want {
		y := g[0].ctx[k]
		switch {
		case x == interface{}(sentinel):
		case fmt.Sprintf("%T", x) == "[]interface {}":
			if fmt.Sprint(x) != fmt.Sprint(y) {
				c.Violate("lazy value", "lazy value %d is %v, want %v", k, y, x)
			}
		case x == interface{}(givenErr):
			if y != interface{}(someErr) {
				c.Violate("lazy value", "lazy value %d is %v, want the error its function returned", k, y)
			}
		case x == interface{}(someErr):
			if e, ok := y.(error); !ok || !strings.Contains(e.Error(), "INVALID_LAZY") {
				c.Violate("lazy error", "invalid lazy value came out as %v", y)
			}
		case x != y:
			c.Violate("lazy value", "lazy value %d is %v, want %v", k, y, x)
		}
	}
}

// givenErr stands for an error a lazy function returned.
var givenErr = errors.New("given")

// Asynchronous handlers, in virtual time.
func asyncLine(r *log.Record) string { return fmt.Sprintf("%s %v %d", r.Msg, r.Ctx, int(r.Lvl)) }

func asyncCase(c *vk.C, i int) {
	r := c.Rng("async", i)
	synctest.Test(c.T, func(t *testing.T) {
		size := r.Intn(4)
		total := 1 + r.Intn(8)
		if r.Intn(20) == 0 {
			size, total = r.Intn(300), 1+r.Intn(400)
		}
		if i%60 == 7 {
			size = []int{1024, 4096, 5000, 8192, 20000}[r.Intn(5)]
			total = size + 1 + r.Intn(50)
		}
		buffered := r.Intn(2) == 0
		gate := make(chan struct{})
		var out []string
		sink := log.FuncHandler(func(r *log.Record) error {
			if r.Msg == "stop" {
				runtime.Goexit()
			}
			<-gate
			out = append(out, asyncLine(r))
			return errors.New("ignored")
		})
		var h log.Handler
		ch := make(chan *log.Record, size)
		if buffered {
			h = log.BufferedHandler(size, sink)
		} else {
			h = log.ChannelHandler(ch)
		}
		var l log.Logger
		if r.Intn(2) == 0 {
			l = log.New()
			l.SetHandler(h)
		}
		var sent atomic.Int32
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < total; k++ {
				if l != nil {
					l.Info(fmt.Sprint(k), "n", k)
				} else if err := h.Log(mkRecord(rand.New(rand.NewSource(1)), log.LvlInfo, fmt.Sprint(k), []interface{}{"n", k})); err != nil {
					c.ViolateAsync("async error", "asynchronous handler returned %v", err)
				}
				sent.Add(1)
			}
		}()
		synctest.Wait()
		free := size
		if buffered {
			free++ // one held by the writer
		}
		for done := 0; ; done++ {
			want := done + free
			if want > total {
				want = total
			}
			if got := int(sent.Load()); got != want {
				c.Violate("async capacity", "buffered=%v size %d: %d of %d records accepted with %d written, want %d", buffered, size, got, total, done, want)
			}
			if done == total {
				break
			}
			if buffered {
				gate <- struct{}{}
			} else {
				out = append(out, asyncLine(<-ch))
			}
			synctest.Wait()
		}
		wg.Wait()
		for k, m := range out {
			if m != fmt.Sprintf("%d [n %d] %d", k, k, int(log.LvlInfo)) {
				c.Violate("async order", "records written in order %v", out)
			}
		}
		if len(out) != total {
			c.Violate("async count", "%d of %d records written", len(out), total)
		}
		c.Eval(fmt.Sprint("async ", buffered, size, total))
		c.Count("async records", total)
		if buffered {
			// The writer goroutine lives as long as the handler; end it, so
			// that the bubble can.
			h.Log(&log.Record{Msg: "stop"})
			synctest.Wait()
		}
	})
}

// framesOf lists call sites down to the first one of the runtime and the
// testing package.
func framesOf(pcs []uintptr, full bool) string {
	var out []string
	for fr := runtime.CallersFrames(pcs); ; {
		f, more := fr.Next()
		i := strings.LastIndexByte(f.Function, '/')
		pkg := f.Function[:i+1+strings.IndexByte(f.Function[i+1:], '.')]
		if pkg == "testing" || pkg == "runtime" {
			break
		}
		s := fmt.Sprintf("%s:%d", filepath.Base(f.File), f.Line)
		if full {
			s = pkg + "/" + s
		}
		out = append(out, s)
		if !more {
			break
		}
	}
	return strings.Join(out, " ")
}

func TestC20(t *testing.T) {
	vk.Run(t, "C20", "random nestings of multi, failover, sync, lazy, filter and discard handlers over failing and working sinks compared with an interpreter of their meaning; lazy values of every shape; asynchronous handlers driven step by step; mutual exclusion storms; distinct = expression or scenario", func(c *vk.C) {
		for i := 0; i < c.N(20000, 500000); i++ {
			c.NoPanic("combinators", func() { combinators(c, i) })
		}
		for i := 0; i < c.N(30, 600); i++ {
			c.NoPanic("long chains", func() { longChain(c, i) })
		}
		for i := 0; i < c.N(20000, 500000); i++ {
			lazyCase(c, i)
		}
		for i := 0; i < c.N(400, 5000); i++ {
			asyncCase(c, i)
		}
		// Lazy call stacks are trimmed to the logging statement.
		for i, s := range siteTable {
			sink := &col{}
			log.Root().SetHandler(log.LazyHandler(sink))
			n := s.m[i%5](log.Root(), "m", "st", log.Lazy{Fn: func() stack.CallStack { return stack.Trace() }})
			g := sink.take()
			if len(g) != 1 {
				c.Violate("lazy stack", "%d records", len(g))
				continue
			}
			cs, _ := g[0].ctx[1].(stack.CallStack)
			want := fmt.Sprintf("%s%s/%s:%d", harnessPath, s.dir, s.file, n)
			if len(cs) == 0 || fmt.Sprintf("%+v", cs[0]) != want {
				c.Violate("lazy stack", "lazy stack starts at %+v, the call was at %s", cs, want)
			} else if end := fmt.Sprintf("%+n", cs[len(cs)-1]); strings.HasPrefix(end, "runtime.") {
				c.Violate("lazy stack", "lazy stack of the call at %s ends in the runtime: %s", want, end)
			}
		}
		// Caller handlers describe the call site.
		for i := 0; i < c.N(600, 10000); i++ {
			r := c.Rng("caller", i)
			s := siteTable[r.Intn(len(siteTable))]
			sink := &col{}
			kind := r.Intn(3)
			var h log.Handler
			switch kind {
			case 0:
				h = log.CallerFileHandler(sink)
			case 1:
				h = log.CallerFuncHandler(sink)
			case 2:
				h = log.CallerStackHandler([]string{"%v", "%+v"}[i%2], sink)
			}
			log.Root().SetHandler(h)
			l := log.New("a", 1)
			lv := 1 + r.Intn(5)
			pcs := make([]uintptr, 100)
			pcs, n := pcs[:runtime.Callers(1, pcs)], s.m[lv-1](l, "m", "b", 2)
			g := sink.take()
			c.Eval(fmt.Sprint("caller", kind, s.dir, s.file, n))
			if len(g) != 1 || len(g[0].ctx) != 6 || cleanCtx(g[0].ctx[:4]) != cleanCtx([]interface{}{"a", 1, "b", 2}) {
				c.Violate("caller context", "caller handler %d: context %v", kind, g)
				continue
			}
			k, v := g[0].ctx[4], fmt.Sprint(g[0].ctx[5])
			file := fmt.Sprintf("%s:%d", s.file, n)
			name := map[bool]string{true: "G", false: "A"}[s.file == "gopher.go"] + []string{"", "Error", "Warn", "Info", "Debug", "Trace"}[lv]
			ok := false
			switch kind {
			case 0:
				ok = k == "caller" && v == file
			case 1:
				ok = k == "fn" && v == harnessPath+s.dir+"."+name
			case 2:
				if i%2 == 1 {
					file = harnessPath + s.dir + "/" + file
				}
				first := strings.SplitN(strings.TrimPrefix(v, "["), " ", 2)[0]
				ok = k == "stack" && strings.HasPrefix(v, "[") && strings.HasSuffix(v, "]") && first == file && strings.Contains(v, "sink_test.go:")
				if want := "[" + file + " " + framesOf(pcs, i%2 == 1) + "]"; ok && v != want {
					c.Violate("caller stack", "stack of a call at %s is %s, want %s", file, v, want)
				}
			}
			if !ok {
				c.Violate(fmt.Sprint("caller ", kind), "call at %s/%s in %s described as %v=%q", s.dir, file, name, k, v)
			}
		}
		// A logging statement that is all of its thread's stack.
		for i := 0; i < c.N(40, 400); i++ {
			sink := &col{}
			format := []string{"%v", "%+v"}[i%2]
			log.Root().SetHandler(log.CallerStackHandler(format, sink))
			l := log.New("a", 1)
			lines := make(chan int, 1)
			done := make(chan struct{})
			// One line, so that its number is the call's.
			go func() { _, _, n, _ := runtime.Caller(0); l.Info("top", "b", 2); lines <- n; close(done) }()
			<-done
			n := <-lines
			want := fmt.Sprintf("[%ssink_test.go:%d]", map[bool]string{true: harnessPath}[i%2 == 1], n)
			if g := sink.take(); len(g) != 1 || len(g[0].ctx) != 6 || g[0].ctx[4] != "stack" || fmt.Sprint(g[0].ctx[5]) != want {
				c.Violate("caller stack of one", "a statement in a thread's only function was given %v, want a stack %s", g, want)
			}
			c.Eval(fmt.Sprint("stack of one ", format))
		}
		// Mutual exclusion, also when the inner handler panics.
		for i := 0; i < c.N(40, 600); i++ {
			r := c.Rng("sync", i)
			var in atomic.Int32
			shared := 0
			n := 0
			h := log.SyncHandler(log.FuncHandler(func(rec *log.Record) error {
				if in.Add(1) != 1 {
					c.ViolateAsync("not exclusive", "two records inside a synchronised handler at once")
				}
				shared++
				runtime.Gosched()
				in.Add(-1)
				if strings.HasPrefix(rec.Msg, "panic") {
					panic("inner")
				}
				if rec.Msg == "err" {
					return someErr
				}
				return nil
			}))
			if i%2 == 1 {
				h = log.StreamHandler(writerFunc(func(b []byte) (int, error) {
					if in.Add(1) != 1 {
						c.ViolateAsync("stream not exclusive", "two writes inside a stream handler at once")
					}
					shared++
					runtime.Gosched()
					in.Add(-1)
					if bytes.Contains(b, []byte("panic")) {
						panic("inner")
					}
					if bytes.Contains(b, []byte("err")) {
						return 0, someErr
					}
					return len(b), nil
				}), log.FormatFunc(func(r *log.Record) []byte { return []byte(r.Msg) }))
			}
			var wg sync.WaitGroup
			vk.Owed("a synchronised handler whose inner handler panicked")
			for g := 0; g < 6; g++ {
				m := 10 + r.Intn(20)
				n += m
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < m; k++ {
						msg := []string{"ok", "err", "panic", "ok"}[k%4]
						func() {
							defer func() { recover() }()
							err := h.Log(&log.Record{Msg: msg, Lvl: log.Lvl((k/4 + i) % 6)})
							if (err != nil) != (msg == "err") {
								c.ViolateAsync("sync result", "record %q returned %v", msg, err)
							}
						}()
					}
				}()
			}
			wg.Wait()
			vk.Paid()
			if shared != n {
				c.Violate("sync count", "%d of %d records reached the inner handler", shared, n)
			}
			c.Eval(fmt.Sprint("sync", n, i%2))
		}
	})
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(b []byte) (int, error) { return f(b) }

// ------------------------------------------------------------------ C21

// lineDoc is what a test record looks like on a stream.
var lineRE = regexp.MustCompile(`^t=(\S+) +lvl=(\w+) +msg=(\S+) +g=(\d+) +n=([\d,]+) *( pad=\S*)?(?: +k\d+=v*)? *$`)

type lineLedger struct {
	c    *vk.C
	what string
	seen map[string]int
	last map[string]int
}

func (l *lineLedger) line(s string) {
	m := lineRE.FindStringSubmatch(s)
	if m == nil {
		l.c.Violate("torn line "+l.what, "%s: line not intact: %.300q", l.what, s)
		return
	}
	n := 0
	fmt.Sscan(strings.ReplaceAll(m[5], ",", ""), &n)
	if m[3] != fmt.Sprintf("m%s-%d", m[4], n) {
		l.c.Violate("mixed line "+l.what, "%s: line mixes records: %.300q", l.what, s)
	}
	if m[6] != "" {
		p := strings.TrimPrefix(m[6], " pad=")
		if strings.Trim(p, "p") != "" || len(p) != padOf(n) {
			l.c.Violate("cut line "+l.what, "%s: padding of record %s damaged (%d bytes)", l.what, m[3], len(p))
		}
	}
	l.seen[m[4]+"/"+fmt.Sprint(n)]++
	if last, ok := l.last[m[4]]; ok && n <= last {
		l.c.Violate("order "+l.what, "%s: thread %s wrote record %d after %d", l.what, m[4], last, n)
	}
	l.last[m[4]] = n
}

func newLedger(c *vk.C, what string) *lineLedger {
	return &lineLedger{c, what, map[string]int{}, map[string]int{}}
}

func padOf(n int) int {
	if n%17 == 16 {
		return 40000 + n*1000
	}
	return 1 + n*37%3000
}

func emit(l log.Logger, g, n int, big bool) {
	args := []interface{}{"g", g, "n", n}
	if big {
		args = append(args, "pad", strings.Repeat("p", padOf(n)))
	}
	logAt(l, log.Lvl(1+n%5), fmt.Sprintf("m%d-%d", g, n), args)
}

func scratch(c *vk.C) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = c.T.TempDir()
	}
	p, err := os.MkdirTemp(d, "sink")
	if err != nil {
		c.HarnessError("%v", err)
	}
	return p
}

func fileCase(c *vk.C, i int) {
	r := c.Rng("file", i)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "log.txt")
	pre := ""
	if r.Intn(2) == 0 {
		pre = strings.Repeat("earlier content\n", r.Intn(50))
		switch r.Intn(6) {
		case 0:
			pre += "no end of line"
		case 1:
			pre += "\n\n \t"
		case 2:
			pre += "\x00\xff\xfe"
		case 3:
			pre += strings.Repeat("long", 30000)
		case 4:
			pre = "x"
		}
		os.WriteFile(path, []byte(pre), 0644)
	}
	hs := 1 + r.Intn(2)
	var ls []log.Logger
	for k := 0; k < hs; k++ {
		var h log.Handler
		var err error
		if r.Intn(2) == 0 {
			h, err = log.FileHandler(path, log.LogfmtFormat())
		} else {
			h = log.Must.FileHandler(path, log.LogfmtFormat())
		}
		if err != nil {
			c.Violate("file open", "FileHandler: %v", err)
			return
		}
		l := log.New()
		l.SetHandler(h)
		ls = append(ls, l)
		if cl, ok := h.(io.Closer); ok {
			defer cl.Close()
		}
	}
	G, M := 1+r.Intn(6), 5+r.Intn(40)
	big := r.Intn(2) == 0
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		rg := c.Rng("fileg", i*100+g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < M; n++ {
				emit(ls[g%hs], g, n, big)
				if rg.Intn(6) == 0 {
					vk.Yield(rg)
				}
			}
		}()
	}
	wg.Wait()
	b, _ := os.ReadFile(path)
	s := string(b)
	if !strings.HasPrefix(s, pre) {
		c.Violate("file truncated", "existing content of the log file was lost: %.200q", s)
		return
	}
	s = s[len(pre):]
	if s != "" && !strings.HasSuffix(s, "\n") {
		c.Violate("file end", "log file does not end a line")
	}
	led := newLedger(c, "file")
	for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		led.line(x)
	}
	led.all(G, M)
	if fi, err := os.Stat(path); pre == "" && err == nil && fi.Mode().Perm()&0600 != 0600 {
		c.Violate("file mode", "log file created with mode %v", fi.Mode())
	}
	c.Eval(fmt.Sprint("file", pre != "", hs, G, M, big))
	c.Count("file records", G*M)
}

func (l *lineLedger) all(G, M int) {
	for g := 0; g < G; g++ {
		for n := 0; n < M; n++ {
			if k := l.seen[fmt.Sprint(g, "/", n)]; k != 1 {
				l.c.Violate("lost or doubled "+l.what, "%s: record %d of thread %d written %d times", l.what, n, g, k)
			}
		}
	}
	if len(l.seen) != G*M {
		l.c.Violate("extra "+l.what, "%s: %d different records written, %d logged", l.what, len(l.seen), G*M)
	}
}

func netCase(c *vk.C, i int) {
	r := c.Rng("net", i)
	G, M := 1+r.Intn(5), 5+r.Intn(40)
	led := newLedger(c, "tcp")
	drive := func(h log.Handler, big bool) {
		l := log.New()
		l.SetHandler(h)
		var wg sync.WaitGroup
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < M; n++ {
					emit(l, g, n, big)
				}
			}()
		}
		wg.Wait()
	}
	switch r.Intn(2) {
	case 0:
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.HarnessError("%v", err)
		}
		defer ln.Close()
		h, err := log.NetHandler("tcp", ln.Addr().String(), log.LogfmtFormat())
		if err != nil {
			c.Violate("dial", "NetHandler: %v", err)
			return
		}
		conn, err := ln.Accept()
		if err != nil {
			c.HarnessError("%v", err)
		}
		defer conn.Close()
		lines := make(chan []byte)
		go func() {
			var acc []byte
			buf := make([]byte, 4096)
			for bytes.Count(acc, []byte("\n")) < G*M {
				n, err := conn.Read(buf)
				acc = append(acc, buf[:n]...)
				if err != nil {
					break
				}
			}
			lines <- acc
		}()
		drive(h, true)
		conn.SetReadDeadline(time.Now().Add(20 * time.Second)) // everything was written; loopback needs no time
		acc := <-lines
		for _, x := range strings.Split(strings.TrimSuffix(string(acc), "\n"), "\n") {
			led.line(x)
		}
		led.all(G, M)
		c.Eval(fmt.Sprint("tcp", G, M))
	case 1:
		kind, addr := "udp", "127.0.0.1:0"
		if r.Intn(2) == 0 {
			dir := scratch(c)
			defer os.RemoveAll(dir)
			kind, addr = "unixgram", filepath.Join(dir, "s")
		}
		pc, err := net.ListenPacket(kind, addr)
		if err != nil {
			c.HarnessError("%v", err)
		}
		defer pc.Close()
		G, M = 1, 1+r.Intn(20) // the receive buffer holds them all
		h := log.Must.NetHandler(kind, pc.LocalAddr().String(), log.LogfmtFormat())
		drained := make(chan struct{})
		go func() { defer close(drained); drive(h, false) }()
		led.what = kind
		buf := make([]byte, 1<<16)
		pc.SetReadDeadline(time.Now().Add(20 * time.Second))
		for k := 0; k < M; k++ {
			n, _, err := pc.ReadFrom(buf)
			if err != nil {
				c.Violate(kind+" lost", "datagram %d of %d missing: %v", k, M, err)
				return
			}
			led.line(strings.TrimSuffix(string(buf[:n]), "\n"))
			if kind == "udp" { // datagrams over the network may overtake each other
				led.last = map[string]int{}
			}
		}
		<-drained
		led.all(G, M)
		c.Eval(fmt.Sprint(kind, M))
	}
	c.Count("net records", G*M)
}

var syslogSev = map[log.Lvl]int{log.LvlCrit: 2, log.LvlError: 3, log.LvlWarn: 4, log.LvlInfo: 6, log.LvlDebug: 7}

func syslogCase(c *vk.C, i int) {
	r := c.Rng("syslog", i)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	pc, err := net.ListenPacket("unixgram", filepath.Join(dir, "s"))
	if err != nil {
		c.HarnessError("%v", err)
	}
	defer pc.Close()
	fac := syslog.Priority(r.Intn(24) << 3)
	var h log.Handler
	if r.Intn(2) == 0 {
		h, err = log.SyslogNetHandler("unixgram", pc.LocalAddr().String(), fac|syslog.Priority(r.Intn(8)), "tag", log.LogfmtFormat())
	} else {
		h = log.Must.SyslogNetHandler("unixgram", pc.LocalAddr().String(), fac|syslog.Priority(r.Intn(8)), "tag", log.LogfmtFormat())
	}
	if err != nil {
		c.Violate("syslog dial", "%v", err)
		return
	}
	var want []string
	for k := 0; k < 8; k++ {
		lvl := log.Lvl(r.Intn(6))
		var tail []interface{}
		if r.Intn(2) == 0 {
			tail = []interface{}{"q", []string{"two words", "=", "", "end.", "\"", "a\nb", "'x'", "[]", "\x00", "é", ",;:", "()"}[r.Intn(12)]}
		}
		rec := mkRecord(r, lvl, fmt.Sprint("s", k), append([]interface{}{"a", log.Lazy{Fn: func() int { return k }}}, tail...))
		text := strings.TrimSpace(string(log.LogfmtFormat().Format(mkRecord(rand.New(rand.NewSource(1)), lvl, fmt.Sprint("s", k), append([]interface{}{"a", k}, tail...)))))
		text = text[strings.Index(text, " lvl="):]
		if err := h.Log(rec); err != nil {
			c.Violate("syslog error", "%v", err)
		}
		if lvl == log.LvlTrace {
			continue
		}
		want = append(want, fmt.Sprintf("<%d>%s", int(fac)|syslogSev[lvl], text))
	}
	// A last one marks the end.
	h.Log(mkRecord(r, log.LvlInfo, "end", nil))
	buf := make([]byte, 1<<16)
	pc.SetReadDeadline(time.Now().Add(20 * time.Second))
	for k := 0; ; k++ {
		n, _, err := pc.ReadFrom(buf)
		if err != nil {
			c.Violate("syslog lost", "message %d of %d missing: %v", k, len(want), err)
			return
		}
		s := strings.TrimSuffix(string(buf[:n]), "\n")
		if strings.Contains(s, "msg=end") {
			if k != len(want) {
				c.Violate("syslog count", "%d messages arrived, want %d (%q)", k, len(want), want)
			}
			break
		}
		if k >= len(want) || !strings.HasPrefix(s, want[k][:strings.IndexByte(want[k], '>')+1]) || !strings.HasSuffix(s, want[k][strings.IndexByte(want[k], '>')+1:]) || !strings.Contains(s, " tag[") {
			c.Violate("syslog message", "message %d is %q, want %q", k, s, want)
		}
	}
	c.Eval(fmt.Sprint("syslog", fac, len(want)))
	c.Count("syslog records", len(want))
}

// syslogStorm: threads share one syslog peer, over every kind of connection;
// their records have any size and may hold several lines.
func syslogStorm(c *vk.C, i int) {
	r := c.Rng("syslogs", i)
	G, M := 1+r.Intn(5), 1+r.Intn(10)
	kind := []string{"udp", "unixgram", "tcp", "unix"}[r.Intn(4)]
	stream := kind == "tcp" || kind == "unix"
	addr := "127.0.0.1:0"
	if strings.HasPrefix(kind, "unix") {
		d := scratch(c)
		defer os.RemoveAll(d)
		addr = filepath.Join(d, "s")
	}
	// A stream has no boundaries but newlines, so only datagrams hold several
	// lines.
	text := func(g, n int) string {
		x := (g*17 + n*5 + i) % 8
		t := fmt.Sprintf("%s<%d/%d>", []string{"", "\"", "(", "'", "[x]: ", "", "\\", "-"}[x], g, n)
		if x := (g*31 + n*17 + i) % 7; x == 0 {
			t += strings.Repeat("x", 9000+x)
		} else if x < 3 && !stream {
			t += "one\n  two\n" + strings.Repeat("three\n", x) + "end"
		}
		return t + []string{"$", "\"", ")", "'", ".", ":", "\\", "\x00"}[x]
	}
	f := log.FormatFunc(func(rec *log.Record) []byte { return []byte(rec.Msg + "\n") })
	want := map[string]int{}
	for g := 0; g < G; g++ {
		for n := 0; n < M; n++ {
			if l := log.Lvl((g + n*5) % 6); l != log.LvlTrace {
				want[fmt.Sprintf("<%d>%s", int(syslog.LOG_USER)|syslogSev[l], text(g, n))]++
			}
		}
	}
	var frames []string
	var drain func(n int)
	if stream {
		ln, err := net.Listen(kind, addr)
		if err != nil {
			c.HarnessError("%v", err)
		}
		defer ln.Close()
		addr = ln.Addr().String()
		got := make(chan []byte, 1)
		go func() {
			conn, err := ln.Accept()
			if err != nil {
				got <- nil
				return
			}
			defer conn.Close()
			conn.SetReadDeadline(time.Now().Add(30 * time.Second))
			var all []byte
			buf := make([]byte, 1<<16)
			for !bytes.Contains(all, []byte("<end>")) {
				n, err := conn.Read(buf)
				all = append(all, buf[:n]...)
				if err != nil {
					break
				}
			}
			got <- all
		}()
		drain = func(int) { frames = strings.Split(strings.TrimSuffix(string(<-got), "\n"), "\n") }
	} else {
		pc, err := net.ListenPacket(kind, addr)
		if err != nil {
			c.HarnessError("%v", err)
		}
		defer pc.Close()
		addr = pc.LocalAddr().String()
		done := make(chan struct{})
		ended := false
		go func() {
			defer close(done)
			buf := make([]byte, 1<<17)
			pc.SetReadDeadline(time.Now().Add(30 * time.Second))
			for {
				n, _, err := pc.ReadFrom(buf)
				if err != nil {
					return
				}
				frames = append(frames, strings.TrimSuffix(string(buf[:n]), "\n"))
				// Datagrams over the network may overtake each other.
				if ended = ended || bytes.Contains(buf[:n], []byte("<end>")); ended && len(frames) > len(want) {
					return
				}
			}
		}()
		drain = func(int) { <-done }
	}
	h, err := log.SyslogNetHandler(kind, addr, syslog.LOG_USER, "tag", f)
	if err != nil {
		c.Violate("syslog dial "+kind, "%v", err)
		return
	}
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < M; n++ {
				rec := &log.Record{Time: time.Now(), Lvl: log.Lvl((g + n*5) % 6), Msg: text(g, n)}
				if err := h.Log(rec); err != nil {
					c.ViolateAsync("syslog error "+kind, "%v", err)
				}
			}
		}()
	}
	wg.Wait()
	if err := h.Log(&log.Record{Lvl: log.LvlInfo, Msg: "<end>"}); err != nil {
		c.Violate("syslog error "+kind, "%v", err)
		return
	}
	drain(G * M)
	at := map[int]int{}
	for k, fr := range frames {
		if strings.Contains(fr, "<end>") && (k == len(frames)-1 || kind == "udp") {
			continue
		}
		var pri, g, n int
		a, b := strings.Index(fr, ">"), strings.Index(fr, "]: ")
		if a < 0 || b < 0 {
			c.Violate("syslog frame "+kind, "message %.200q is not intact", fr)
			return
		}
		fmt.Sscanf(fr, "<%d>", &pri)
		body := fr[b+3:]
		key := fmt.Sprintf("<%d>%s", pri, body)
		if want[key]--; want[key] < 0 {
			c.Violate("syslog storm "+kind, "message %.300q was not logged like that, or more often than logged", fr)
			return
		}
		fmt.Sscanf(body[strings.IndexByte(body, '<'):], "<%d/%d>", &g, &n)
		if n < at[g] && kind != "udp" {
			c.Violate("syslog order "+kind, "thread %d: record %d arrived after %d", g, n, at[g])
		}
		at[g] = n
	}
	for k, n := range want {
		if n > 0 {
			c.Violate("syslog lost "+kind, "%.200q did not arrive", k)
			return
		}
	}
	c.Eval(fmt.Sprint("syslogs ", kind, G, M))
	c.Count("syslog records", G*M)
}

// syslogBreak: the syslog daemon goes away; every write then fails, and the
// caller learns of it at once.
func syslogBreak(c *vk.C, i int) {
	r := c.Rng("sysbreak", i)
	dir := scratch(c)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s")
	pc, err := net.ListenPacket("unixgram", path)
	if err != nil {
		c.HarnessError("%v", err)
	}
	h, err := log.SyslogNetHandler("unixgram", path, syslog.LOG_USER, "tag", log.LogfmtFormat())
	if err != nil {
		c.Violate("syslog dial", "%v", err)
		return
	}
	for k := r.Intn(4); k > 0; k-- {
		if err := h.Log(mkRecord(r, log.Lvl(r.Intn(5)), "m", nil)); err != nil {
			c.Violate("syslog error", "%v", err)
		}
	}
	pc.Close()
	os.Remove(path)
	sink := &col{}
	fo := log.FailoverHandler(h, sink)
	for k := 0; k < 3; k++ {
		lvl := log.Lvl(r.Intn(5))
		if k == 2 {
			if err := fo.Log(mkRecord(r, lvl, "b", nil)); err != nil || len(sink.take()) != 1 {
				c.Violate("syslog failover", "a record for a daemon that is gone did not reach the second handler (%v)", err)
			}
		} else if err := h.Log(mkRecord(r, lvl, "b", nil)); err == nil {
			c.Violate("syslog silent", "the syslog daemon is gone; a record at level %d for it was reported written", int(lvl))
		}
	}
	c.Eval(fmt.Sprint("syslog broken ", r.Intn(8)))
	c.Count("broken connections", 1)
}

// netBreak: the peer goes away. The handler reports it sooner or later, so
// that records go elsewhere, and none vanishes after the first report.
func netBreak(c *vk.C, i int) {
	r := c.Rng("break", i)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.HarnessError("%v", err)
	}
	defer ln.Close()
	h, err := log.NetHandler("tcp", ln.Addr().String(), log.LogfmtFormat())
	if err != nil {
		c.Violate("dial", "NetHandler: %v", err)
		return
	}
	conn, err := ln.Accept()
	if err != nil {
		c.HarnessError("%v", err)
	}
	for k := r.Intn(4); k > 0; k-- {
		if err := h.Log(mkRecord(r, log.LvlInfo, "m", nil)); err != nil {
			c.Violate("net error", "error %v while the peer listens", err)
		}
	}
	if r.Intn(2) == 0 {
		conn.(*net.TCPConn).SetLinger(0)
	}
	conn.Close()
	sink := &col{}
	fo := log.FailoverHandler(h, sink)
	n, failed := 0, -1
	for dead := time.Now().Add(30 * time.Second); n < 20 && time.Now().Before(dead); {
		err := fo.Log(mkRecord(r, log.LvlInfo, fmt.Sprint("b", n), nil))
		if err != nil {
			c.Violate("net failover", "failover with a working second handler returned %v", err)
			return
		}
		got := sink.take()
		if len(got) == 0 && failed >= 0 {
			c.Violate("net swallowed", "the connection was reported broken, yet a later record was reported written")
			return
		}
		if len(got) == 1 && failed < 0 {
			failed = n
		}
		if len(got) == 0 {
			time.Sleep(time.Millisecond)
			continue
		}
		n++
	}
	if failed < 0 {
		c.Violate("net silent", "the peer closed the connection; writing to it was never reported to fail")
	}
	c.Eval(fmt.Sprint("net broken ", failed >= 0, r.Intn(8)))
	c.Count("broken connections", 1)
}

// Many threads log through derived loggers while handlers are swapped among
// several streams: every record lands exactly once, whole, in thread order
// per stream.
func streamStorm(c *vk.C, i int) {
	r := c.Rng("streams", i)
	const S = 3
	var bufs [S]bytes.Buffer
	var hs [S]log.Handler
	js := r.Intn(2) == 0
	for k := range hs {
		f := log.LogfmtFormat()
		if js {
			f = log.JSONFormat()
		}
		hs[k] = log.StreamHandler(&bufs[k], f)
	}
	base := log.New()
	base.SetHandler(hs[0])
	G, M := 2+r.Intn(6), 10+r.Intn(30)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var sw sync.WaitGroup
	sw.Add(1)
	rs := c.Rng("streamsw", i)
	go func() {
		defer sw.Done()
		for {
			select {
			case <-stop:
				return
			default:
				base.SetHandler(hs[rs.Intn(S)])
				vk.Yield(rs)
			}
		}
	}()
	for g := 0; g < G; g++ {
		rg := c.Rng("streamg", i*100+g)
		l := base
		if g%2 == 1 {
			l = base.New("g", g)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < M; n++ {
				args := []interface{}{"n", n, fmt.Sprint("k", rg.Intn(100000)), strings.Repeat("v", rg.Intn(50))}
				if g%2 == 0 {
					args = append([]interface{}{"g", g}, args...)
				}
				logAt(l, log.Lvl(1+n%5), fmt.Sprintf("m%d-%d", g, n), args)
				if rg.Intn(5) == 0 {
					vk.Yield(rg)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	sw.Wait()
	total := newLedger(c, "stream")
	shape := ""
	for k := range bufs {
		led := newLedger(c, "stream")
		if js {
			dec := json.NewDecoder(&bufs[k])
			for dec.More() {
				var d struct {
					G, N int
					Msg  string
				}
				if err := dec.Decode(&d); err != nil {
					c.Violate("torn json", "stream: %v", err)
					return
				}
				led.line(fmt.Sprintf("t=x lvl=x msg=%s g=%d n=%d", d.Msg, d.G, d.N))
			}
		} else if s := bufs[k].String(); s != "" {
			for _, x := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
				led.line(x)
			}
		}
		shape += fmt.Sprint(len(led.seen), " ")
		for x, n := range led.seen {
			total.seen[x] += n
		}
	}
	total.all(G, M)
	c.Eval("streams " + shape)
	c.Count("stream records", G*M)
	c.Sample("records per stream under swapping: %s", shape)
}

func TestC21(t *testing.T) {
	vk.Run(t, "C21", "threads logging to files (one or two handlers on one file, existing content), TCP and UDP peers, syslog peers and streams under handler swapping; every byte that arrived is accounted for; distinct = scenario shapes and distributions over sinks", func(c *vk.C) {
		for i := 0; i < c.N(120, 3000); i++ {
			fileCase(c, i)
		}
		for i := 0; i < c.N(60, 1500); i++ {
			netCase(c, i)
		}
		for i := 0; i < c.N(80, 1500); i++ {
			syslogCase(c, i)
		}
		for i := 0; i < c.N(160, 3000); i++ {
			syslogStorm(c, i)
		}
		for i := 0; i < c.N(40, 500); i++ {
			netBreak(c, i)
		}
		for i := 0; i < c.N(40, 500); i++ {
			syslogBreak(c, i)
		}
		for i := 0; i < c.N(120, 3000); i++ {
			streamStorm(c, i)
		}
		// Failures to open are reported, by panicking for Must.
		dir := scratch(c)
		defer os.RemoveAll(dir)
		bad := filepath.Join(dir, "no", "such", "dir", "x.log")
		if h, err := log.FileHandler(bad, log.LogfmtFormat()); err == nil || h != nil {
			c.Violate("bad file", "FileHandler on an impossible path returned %v, %v", h, err)
		}
		if v, _ := vk.Panics(func() { log.Must.FileHandler(bad, log.LogfmtFormat()) }); v == nil {
			c.Violate("must file", "Must.FileHandler on an impossible path did not panic")
		}
		ln, _ := net.Listen("tcp", "127.0.0.1:0")
		addr := ln.Addr().String()
		ln.Close()
		if h, err := log.NetHandler("tcp", addr, log.LogfmtFormat()); err == nil || h != nil {
			c.Violate("bad net", "NetHandler to a closed port returned %v, %v", h, err)
		}
		if v, _ := vk.Panics(func() { log.Must.NetHandler("tcp", addr, log.LogfmtFormat()) }); v == nil {
			c.Violate("must net", "Must.NetHandler to a closed port did not panic")
		}
		if h, err := log.SyslogNetHandler("tcp", addr, 0, "t", log.LogfmtFormat()); err == nil || h != nil {
			c.Violate("bad syslog", "SyslogNetHandler to a closed port returned %v, %v", h, err)
		}
		if v, _ := vk.Panics(func() { log.Must.SyslogNetHandler("tcp", addr, 0, "t", log.LogfmtFormat()) }); v == nil {
			c.Violate("must syslog", "Must.SyslogNetHandler to a closed port did not panic")
		}
		// A failing writer's error reaches the caller.
		for i := 0; i < 50; i++ {
			h := log.StreamHandler(writerFunc(func(b []byte) (int, error) { return 0, someErr }), log.LogfmtFormat())
			if err := h.Log(mkRecord(c.Rng("w", i), log.LvlInfo, "m", nil)); err != someErr {
				c.Violate("writer error", "stream handler returned %v", err)
			}
		}
		c.Eval("failures")
	})
}
