package log

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"verifharness/log/site"
	barfoo "verifharness/log/site/bar/foo"
	"verifharness/log/site/foo"
	"verifharness/log/site/foo/baz"
	"verifharness/log/site/mango"
	"verifharness/log/site/nats.go/jet"
	apidot "verifharness/log/site/v1.2/api"
	apix "verifharness/log/site/v1x2/api"
	"verifharness/vk"
)

// got is a snapshot of a record as a handler saw it.
type got struct {
	rec *log.Record
	msg string
	lvl log.Lvl
	ctx []interface{}
	tm  time.Time
}

// col collects records; a vandal then scribbles over them.
type col struct {
	id     int
	vandal bool
	err    error
	mu     sync.Mutex
	recs   []got
	old    []got
	hook   func(*log.Record)
}

func (h *col) Log(r *log.Record) error {
	h.mu.Lock()
	h.recs = append(h.recs, got{r, r.Msg, r.Lvl, append([]interface{}{}, r.Ctx...), r.Time})
	h.mu.Unlock()
	if h.hook != nil {
		h.hook(r)
	}
	if h.vandal {
		for i := range r.Ctx {
			r.Ctx[i] = "vandal"
		}
		if cap(r.Ctx) > len(r.Ctx) {
			r.Ctx[:cap(r.Ctx)][len(r.Ctx)] = "vandal"
		}
		r.Ctx = append(r.Ctx, "vandal", "vandal")
		r.Msg = "vandal"
	}
	return h.err
}

func (h *col) take() []got {
	h.mu.Lock()
	defer h.mu.Unlock()
	g := h.recs
	h.recs = nil
	if !h.vandal {
		h.old = append(h.old, g...)
	}
	return g
}

// recheck: a record handed to a handler is the handler's; later logging must
// not change it.
func (h *col) recheck(c *vk.C) {
	h.take()
	for _, g := range h.old {
		same := g.rec.Msg == g.msg && g.rec.Lvl == g.lvl && g.rec.Time.Equal(g.tm) && len(g.rec.Ctx) == len(g.ctx)
		for i := 0; same && i < len(g.ctx); i++ {
			same = sameVal(g.rec.Ctx[i], g.ctx[i])
		}
		if !same {
			c.Violate("kept record", "the record %q %v was changed to %q %v by later logging", g.msg, g.ctx, g.rec.Msg, g.rec.Ctx)
		}
	}
}

// sameVal compares values of a context; maps are the same map or not.
func sameVal(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == reflect.Map && y.Kind() == reflect.Map {
		return x.Type() == y.Type() && x.Pointer() == y.Pointer()
	}
	return x.Kind() != reflect.Map && y.Kind() != reflect.Map && a == b
}

// seg is a stretch of context: exact values, or a map whose order is free.
type seg struct {
	exact []interface{}
	m     map[string]interface{}
	odd   bool
}

func matchSegs(ctx []interface{}, segs []seg) string {
	i := 0
	for _, s := range segs {
		if s.m != nil {
			if i+2*len(s.m) > len(ctx) {
				return "context too short"
			}
			seen := map[string]bool{}
			for j := 0; j < len(s.m); j++ {
				k, _ := ctx[i+2*j].(string)
				v, ok := s.m[k]
				if !ok || seen[k] || !sameVal(v, ctx[i+2*j+1]) {
					return fmt.Sprintf("pair %v=%v does not belong to the context map %v", ctx[i+2*j], ctx[i+2*j+1], s.m)
				}
				seen[k] = true
			}
			i += 2 * len(s.m)
			continue
		}
		if i+len(s.exact) > len(ctx) {
			return "context too short"
		}
		for j, v := range s.exact {
			if !sameVal(ctx[i+j], v) {
				return fmt.Sprintf("position %d holds %v, want %v", i+j, ctx[i+j], v)
			}
		}
		i += len(s.exact)
		if s.odd {
			if i+3 > len(ctx) || ctx[i] != nil || ctx[i+1] != errorKey {
				return "odd context not completed with nil and flagged"
			}
			i += 3
		}
	}
	if i != len(ctx) {
		return fmt.Sprintf("%d extra values", len(ctx)-i)
	}
	return ""
}

type node struct {
	l      log.Logger
	parent *node
	segs   []seg
	own    *col
	name   string
	slice  []interface{} // caller's slice passed to New
	kept   []interface{}
}

func (n *node) handler() *col {
	for n.own == nil {
		n = n.parent
		if n == nil {
			return nil
		}
	}
	return n.own
}

var sentinel = new(int)

// genArgs returns arguments with watched spare capacity and what they mean.
func genArgs(r *rand.Rand, next *int) ([]interface{}, seg) {
	fresh := func() interface{} {
		*next++
		if r.Intn(20) == 0 {
			return nil
		}
		switch r.Intn(4) {
		case 0:
			return fmt.Sprint("v", *next)
		case 1:
			return *next
		case 2:
			p := *next
			return &p
		}
		return float64(*next) / 2
	}
	if r.Intn(60) == 0 {
		return []interface{}{log.Ctx(nil)}, seg{m: map[string]interface{}{}}
	}
	if r.Intn(6) == 0 {
		m := log.Ctx{}
		for i := vk.Tail(r, 100, 5, 100); i > 0; i-- {
			*next++
			m[fmt.Sprint("m", *next)] = fresh()
		}
		cp := map[string]interface{}{}
		for k, v := range m {
			cp[k] = v
		}
		return []interface{}{m}, seg{m: cp}
	}
	n := vk.Tail(r, 150, 7, 300)
	s := make([]interface{}, n, n+8)
	for i := range s {
		s[i] = fresh()
		if i%2 == 0 && r.Intn(3) > 0 {
			s[i] = fmt.Sprint("k", *next)
		}
	}
	if n > 0 && r.Intn(12) == 0 {
		s[n-1] = nil
	}
	// A context map among others is a value like any.
	if n > 1 && r.Intn(10) == 0 {
		at := r.Intn(n)
		if r.Intn(2) == 0 {
			at = 0
		}
		s[at] = log.Ctx{"inner": *next}
		if r.Intn(4) == 0 {
			s[r.Intn(n)] = s[at]
		}
	}
	full := s[:cap(s)]
	for i := n; i < len(full); i++ {
		full[i] = sentinel
	}
	return s, seg{exact: append([]interface{}{}, s...), odd: n%2 == 1}
}

func logAt(l log.Logger, lvl log.Lvl, msg string, args []interface{}) {
	switch lvl {
	case log.LvlError:
		l.Error(msg, args...)
	case log.LvlWarn:
		l.Warn(msg, args...)
	case log.LvlInfo:
		l.Info(msg, args...)
	case log.LvlDebug:
		l.Debug(msg, args...)
	default:
		l.Trace(msg, args...)
	}
}

func pkgLog(lvl log.Lvl, msg string, args []interface{}) {
	switch lvl {
	case log.LvlError:
		log.Error(msg, args...)
	case log.LvlWarn:
		log.Warn(msg, args...)
	case log.LvlInfo:
		log.Info(msg, args...)
	case log.LvlDebug:
		log.Debug(msg, args...)
	default:
		log.Trace(msg, args...)
	}
}

func loggerTree(c *vk.C, i int) {
	r := c.Rng("tree", i)
	next := 0
	var all []*col
	mk := func() *col {
		h := &col{id: len(all), vandal: r.Intn(3) == 0}
		if r.Intn(4) == 0 {
			h.err = errors.New("handler failed")
		}
		all = append(all, h)
		return h
	}
	root := &node{l: log.Root(), name: "root", own: mk()}
	root.l.SetHandler(root.own)
	nodes := []*node{root}
	hist := []string{}
	key := ""
	checkSlice := func(what string, s, kept []interface{}) {
		full := s[:cap(s)]
		for j := range s {
			if !reflect.DeepEqual(s[j], kept[j]) {
				c.Violate("caller slice", "%s changed the caller's argument %d from %v to %v\nhistory %v", what, j, kept[j], s[j], hist)
			}
		}
		for j := len(s); j < len(full); j++ {
			if full[j] != sentinel && full[j] != nil {
				c.Violate("spare capacity", "%s wrote %v past the caller's arguments\nhistory %v", what, full[j], hist)
			}
		}
	}
	// Both the logger and the model see every operation at once.
	steps, maxNodes := 6+r.Intn(30), 12
	if i%250 == 7 { // a large family
		steps, maxNodes = 400, 150
	}
	for step := 0; step < steps; step++ {
		n := nodes[r.Intn(len(nodes))]
		if maxNodes > 12 && r.Intn(2) == 0 { // deep
			n = nodes[len(nodes)-1]
		}
		switch k := r.Intn(10); {
		case k < 3 && len(nodes) < maxNodes:
			args, s := genArgs(r, &next)
			kept := append([]interface{}{}, args...)
			ch := &node{parent: n, segs: append(append([]seg{}, n.segs...), s), name: fmt.Sprint(n.name, ".", len(nodes))}
			hist = append(hist, fmt.Sprintf("%s=%s.New(%v)", ch.name, n.name, args))
			if n == root && r.Intn(2) == 0 {
				ch.l = log.New(args...)
			} else {
				ch.l = n.l.New(args...)
			}
			checkSlice("New", args, kept)
			if r.Intn(2) == 0 {
				for j := range args { // the caller reuses its slice
					if m, ok := args[j].(log.Ctx); ok && m != nil {
						m["late"] = 1
						for k := range m {
							m[k] = "changed"
						}
					}
					args[j] = "reused"
				}
			} else {
				ch.slice, ch.kept = args, kept
			}
			nodes = append(nodes, ch)
			key += fmt.Sprint("N", len(args)%2, s.m != nil)
		case k == 3:
			h := all[r.Intn(len(all))]
			if r.Intn(2) == 0 {
				h = mk()
			}
			n.own = h
			n.l.SetHandler(h)
			hist = append(hist, fmt.Sprintf("%s.SetHandler(h%d)", n.name, h.id))
			key += "H"
		case k == 4:
			h := n.l.GetHandler()
			if n.own != nil {
				if hc, ok := h.(*col); !ok || hc != n.own {
					c.Violate("GetHandler", "GetHandler of %s returned %v, not the handler that was set\nhistory %v", n.name, h, hist)
				}
				continue
			}
			// Inherited: whatever it is, it leads to the current handler.
			rec := mkRecord(r, log.LvlInfo, "direct", nil)
			h.Log(rec)
			if g := n.handler().take(); len(g) != 1 || g[0].rec != rec {
				c.Violate("GetHandler inherited", "the handler of %s does not write to the handler in effect (h%d)\nhistory %v", n.name, n.handler().id, hist)
			}
			key += "G"
		default:
			args, s := genArgs(r, &next)
			kept := append([]interface{}{}, args...)
			lvl := log.Lvl(1 + r.Intn(5))
			next++
			msg := fmt.Sprint("msg", next)
			hist = append(hist, fmt.Sprintf("%s.Log%d(%q,%v)", n.name, lvl, msg, args))
			if n == root && r.Intn(2) == 0 {
				pkgLog(lvl, msg, args)
			} else {
				logAt(n.l, lvl, msg, args)
			}
			checkSlice("logging", args, kept)
			segs := append(append([]seg{}, n.segs...), s)
			want := n.handler()
			for _, h := range all {
				g := h.take()
				if h != want {
					if len(g) != 0 {
						c.Violate("wrong handler", "record of %s reached h%d, its handler is h%d\nhistory %v", n.name, h.id, want.id, hist)
					}
					continue
				}
				if len(g) != 1 {
					c.Violate("count", "record of %s arrived %d times at its handler h%d\nhistory %v", n.name, len(g), h.id, hist)
					continue
				}
				if why := matchSegs(g[0].ctx, segs); why != "" {
					c.Violate("context", "record of %s carries %v: %s\nhistory %v", n.name, g[0].ctx, why, hist)
				}
				if g[0].msg != msg || g[0].lvl != lvl {
					c.Violate("message", "record %q at %v arrived as %q at %v", msg, lvl, g[0].msg, g[0].lvl)
				}
			}
			c.Count("records", 1)
			key += fmt.Sprint("L", len(args)%2, s.m != nil, len(n.segs))
		}
	}
	for _, n := range nodes {
		if n.slice != nil {
			checkSlice("later use", n.slice, n.kept)
		}
	}
	for _, h := range all {
		h.recheck(c)
	}
	c.Eval(key)
	c.Sample("%v", hist)
}

// longContext: contexts of thousands of values, given at once or handed down
// through long lines of descent.
func longContext(c *vk.C, i int) {
	r := c.Rng("longctx", i)
	h := &col{}
	log.Root().SetHandler(h)
	l, segs, next := log.Root(), []seg{}, 0
	add := func(n int) []interface{} {
		args := make([]interface{}, n)
		for j := range args {
			next++
			args[j] = fmt.Sprint("v", next)
		}
		segs = append(segs, seg{exact: args, odd: n%2 == 1})
		return append([]interface{}{}, args...)
	}
	gens, size := 1+r.Intn(4), 500+r.Intn(4000)
	if i%2 == 0 {
		gens, size = 300+r.Intn(900), 1+r.Intn(6)
	}
	for g := 0; g < gens; g++ {
		l = l.New(add(size)...)
	}
	for k := 0; k < 2; k++ {
		n := r.Intn(2 * size)
		l.Warn("m", add(n)...)
		g := h.take()
		if len(g) != 1 {
			c.Violate("long count", "a record with %d generations of context arrived %d times", gens, len(g))
			return
		}
		if why := matchSegs(g[0].ctx, segs); why != "" {
			c.Violate("long context", "%d generations of %d values and %d of the call, %d values arrived: %s", gens, size, n, len(g[0].ctx), why)
		}
		segs = segs[:len(segs)-1]
	}
	h.recheck(c)
	c.Count("generations of long contexts", gens)
	c.Eval(fmt.Sprint("long", gens, size))
}

// busyHandlers: handlers that, while they handle a record, exchange handlers,
// derive loggers and log more. Each record still goes to the one handler in
// effect when it was logged, also if that handler fails.
func busyHandlers(c *vk.C, i int) {
	r := c.Rng("busy", i)
	root := &node{l: log.Root(), name: "root"}
	nodes := []*node{root}
	var hs []*col
	var got, want, hist []string
	depth, n := 0, 0
	errs := []error{nil, errors.New("handler failed"), os.ErrClosed, net.ErrClosed, io.ErrClosedPipe, context.Canceled}
	var act func()
	mk := func() *col {
		h := &col{id: len(hs), err: errs[r.Intn(len(errs))]}
		h.hook = func(rec *log.Record) {
			got = append(got, fmt.Sprint(h.id, " ", rec.Msg))
			if depth < 3 {
				depth++
				for k := r.Intn(3); k > 0; k-- {
					act()
				}
				depth--
			}
		}
		hs = append(hs, h)
		return h
	}
	set := func(n *node, h *col) {
		hist = append(hist, fmt.Sprintf("%d: %s.SetHandler(h%d)", depth, n.name, h.id))
		n.own = h
		n.l.SetHandler(h)
	}
	act = func() {
		x := nodes[r.Intn(len(nodes))]
		switch k := r.Intn(6); {
		case k == 0 && len(nodes) < 8:
			ch := &node{l: x.l.New("n", len(nodes)), parent: x, name: fmt.Sprint(x.name, ".", len(nodes))}
			nodes = append(nodes, ch)
			hist = append(hist, fmt.Sprintf("%d: new %s", depth, ch.name))
		case k < 4:
			h := hs[r.Intn(len(hs))]
			if len(hs) < 8 {
				h = mk()
			}
			set(x, h)
		default:
			if n++; n > 60 {
				return
			}
			msg := fmt.Sprint("m", n)
			want = append(want, fmt.Sprint(x.handler().id, " ", msg))
			hist = append(hist, fmt.Sprintf("%d: %s logs %s", depth, x.name, msg))
			if x == root && r.Intn(2) == 0 {
				log.Warn(msg, "a", n)
			} else {
				x.l.Info(msg, "a", n)
			}
		}
	}
	set(root, mk())
	for k := 0; k < 12; k++ {
		act()
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Violate("busy handlers", "records arrived (handler, record) %v, want %v\nhistory %v", got, want, hist)
	}
	for _, h := range hs {
		h.hook = nil
		h.recheck(c)
	}
	c.Eval(fmt.Sprint("busy ", want))
	c.Count("records of busy handlers", n)
}

// Many threads derive and log through shared parents while handlers change.
func loggerStorm(c *vk.C, i int) {
	r := c.Rng("storm", i)
	hs := []*col{{id: 0, vandal: r.Intn(2) == 0}, {id: 1}, {id: 2, vandal: true}}
	next := 0
	args, s := genArgs(r, &next)
	base := log.Root().New(args...)
	base.SetHandler(hs[0])
	mid := base.New("mid", i)
	const G, M = 6, 25
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		rg := c.Rng("stormg", i*100+g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := 0; m < M; m++ {
				vk.Yield(rg)
				switch {
				case g == 0:
					base.SetHandler(hs[m%3])
				case g%2 == 1:
					mid.Info(fmt.Sprint(g, "/", m), "g", g)
				default:
					mid.New("n", m).Warn(fmt.Sprint(g, "/", m), "g", g)
				}
			}
		}()
	}
	wg.Wait()
	seen := map[string]int{}
	split := ""
	for _, h := range hs {
		g := h.take()
		split += fmt.Sprint(len(g), " ")
		for _, x := range g {
			seen[x.msg]++
			var gi, m int
			fmt.Sscanf(x.msg, "%d/%d", &gi, &m)
			want := []seg{s, {exact: []interface{}{"mid", i}}}
			if gi%2 == 0 {
				want = append(want, seg{exact: []interface{}{"n", m}})
			}
			want = append(want, seg{exact: []interface{}{"g", gi}})
			if why := matchSegs(x.ctx, want); why != "" {
				c.Violate("storm context", "record %s carries %v: %s", x.msg, x.ctx, why)
			}
		}
	}
	for _, h := range hs {
		h.recheck(c)
	}
	for g := 1; g < G; g++ {
		for m := 0; m < M; m++ {
			if k := fmt.Sprint(g, "/", m); seen[k] != 1 {
				c.Violate("storm count", "record %s arrived %d times while handlers were being swapped", k, seen[k])
			}
		}
	}
	c.Eval("storm " + split)
	c.Count("records", (G-1)*M)
}

func TestC12(t *testing.T) {
	vk.Run(t, "C12", "random trees of loggers with every argument shape (even, odd, context maps, reused slices with watched spare capacity), handler changes and record-scribbling handlers compared with a model after each operation, plus concurrent storms; distinct = different operation/argument-shape sequences and storm outcomes", func(c *vk.C) {
		// Before any handler is set, logging is silent.
		c.NoPanic("logging before a handler is set", func() {
			log.Info("quiet", "a", 1)
			log.Root().Error("quiet")
			log.New("x", 1).Warn("quiet")
			if err := log.Root().GetHandler().Log(mkRecord(rand.New(rand.NewSource(1)), log.LvlInfo, "q", nil)); err != nil {
				c.Violate("default handler", "the default root handler fails: %v", err)
			}
		})
		for i := 0; i < c.N(10000, 300000); i++ {
			c.NoPanic("logger tree", func() { loggerTree(c, i) })
		}
		for i := 0; i < c.N(2000, 60000); i++ {
			c.NoPanic("busy handlers", func() { busyHandlers(c, i) })
		}
		for i := 0; i < c.N(150, 4000); i++ {
			loggerStorm(c, i)
		}
		for i := 0; i < c.N(12, 100); i++ {
			c.NoPanic("long contexts", func() { longContext(c, i) })
		}
	})
}

// ------------------------------------------------------------------ C13

type siteFns struct {
	dir, file string
	m         [5]func(log.Logger, string, ...interface{}) int
	p         [5]func(string, ...interface{}) int
	o0        func(string, log.Lvl, int, ...interface{}) int
	o1        func(string, log.Lvl, int, ...interface{}) (int, int)
	o2        func(string, log.Lvl, int, ...interface{}) (int, int, int)
}

// index = level - 1 (error..trace)
var siteTable = []siteFns{
	{"site", "gopher.go", [5]func(log.Logger, string, ...interface{}) int{site.GError, site.GWarn, site.GInfo, site.GDebug, site.GTrace}, [5]func(string, ...interface{}) int{site.GPError, site.GPWarn, site.GPInfo, site.GPDebug, site.GPTrace}, site.GOut, site.GOut1, site.GOut2},
	{"site", "a.go", [5]func(log.Logger, string, ...interface{}) int{site.AError, site.AWarn, site.AInfo, site.ADebug, site.ATrace}, [5]func(string, ...interface{}) int{site.APError, site.APWarn, site.APInfo, site.APDebug, site.APTrace}, site.AOut, site.AOut1, site.AOut2},
	{"site/foo", "gopher.go", [5]func(log.Logger, string, ...interface{}) int{foo.GError, foo.GWarn, foo.GInfo, foo.GDebug, foo.GTrace}, [5]func(string, ...interface{}) int{foo.GPError, foo.GPWarn, foo.GPInfo, foo.GPDebug, foo.GPTrace}, foo.GOut, foo.GOut1, foo.GOut2},
	{"site/foo", "a.go", [5]func(log.Logger, string, ...interface{}) int{foo.AError, foo.AWarn, foo.AInfo, foo.ADebug, foo.ATrace}, [5]func(string, ...interface{}) int{foo.APError, foo.APWarn, foo.APInfo, foo.APDebug, foo.APTrace}, foo.AOut, foo.AOut1, foo.AOut2},
	{"site/bar/foo", "gopher.go", [5]func(log.Logger, string, ...interface{}) int{barfoo.GError, barfoo.GWarn, barfoo.GInfo, barfoo.GDebug, barfoo.GTrace}, [5]func(string, ...interface{}) int{barfoo.GPError, barfoo.GPWarn, barfoo.GPInfo, barfoo.GPDebug, barfoo.GPTrace}, barfoo.GOut, barfoo.GOut1, barfoo.GOut2},
	{"site/bar/foo", "a.go", [5]func(log.Logger, string, ...interface{}) int{barfoo.AError, barfoo.AWarn, barfoo.AInfo, barfoo.ADebug, barfoo.ATrace}, [5]func(string, ...interface{}) int{barfoo.APError, barfoo.APWarn, barfoo.APInfo, barfoo.APDebug, barfoo.APTrace}, barfoo.AOut, barfoo.AOut1, barfoo.AOut2},
	{"site/foo/baz", "gopher.go", [5]func(log.Logger, string, ...interface{}) int{baz.GError, baz.GWarn, baz.GInfo, baz.GDebug, baz.GTrace}, [5]func(string, ...interface{}) int{baz.GPError, baz.GPWarn, baz.GPInfo, baz.GPDebug, baz.GPTrace}, baz.GOut, baz.GOut1, baz.GOut2},
	{"site/nats.go/jet", "client.go", [5]func(log.Logger, string, ...interface{}) int{jet.AError, jet.AWarn, jet.AInfo, jet.ADebug, jet.ATrace}, [5]func(string, ...interface{}) int{jet.APError, jet.APWarn, jet.APInfo, jet.APDebug, jet.APTrace}, jet.AOut, jet.AOut1, jet.AOut2},
	{"site/foo/baz", "a.go", [5]func(log.Logger, string, ...interface{}) int{baz.AError, baz.AWarn, baz.AInfo, baz.ADebug, baz.ATrace}, [5]func(string, ...interface{}) int{baz.APError, baz.APWarn, baz.APInfo, baz.APDebug, baz.APTrace}, baz.AOut, baz.AOut1, baz.AOut2},
	{"site/v1.2/api", "a.go", [5]func(log.Logger, string, ...interface{}) int{apidot.AError, apidot.AWarn, apidot.AInfo, apidot.ADebug, apidot.ATrace}, [5]func(string, ...interface{}) int{apidot.APError, apidot.APWarn, apidot.APInfo, apidot.APDebug, apidot.APTrace}, apidot.AOut, apidot.AOut1, apidot.AOut2},
	{"site/v1x2/api", "a.go", [5]func(log.Logger, string, ...interface{}) int{apix.AError, apix.AWarn, apix.AInfo, apix.ADebug, apix.ATrace}, [5]func(string, ...interface{}) int{apix.APError, apix.APWarn, apix.APInfo, apix.APDebug, apix.APTrace}, apix.AOut, apix.AOut1, apix.AOut2},
	{"site/mango", "a.go", [5]func(log.Logger, string, ...interface{}) int{mango.AError, mango.AWarn, mango.AInfo, mango.ADebug, mango.ATrace}, [5]func(string, ...interface{}) int{mango.APError, mango.APWarn, mango.APInfo, mango.APDebug, mango.APTrace}, mango.AOut, mango.AOut1, mango.AOut2},
}

const harnessPath = "verifharness/log/"

func critChild(kind string) {
	h, err := log.FileHandler(os.Getenv("VERIF_CRIT_FILE"), log.JSONFormat())
	if err != nil {
		os.Exit(7)
	}
	from := 0
	log.Root().SetHandler(log.MultiHandler(log.FuncHandler(func(r *log.Record) error {
		_, file, _, _ := runtime.Caller(0)
		return os.WriteFile(os.Getenv("VERIF_CRIT_FILE")+".site", []byte(fmt.Sprintf("%+v %s%s:%d", r.Call, harnessPath, filepath.Base(file), from+1)), 0644)
	}), h))
	here := func() int { _, _, n, _ := runtime.Caller(1); return n }
	switch kind {
	case "pkg":
		from = here()
		log.Crit("fatal pkg", "a", 1)
	case "root":
		from = here()
		log.Root().Crit("fatal root", "a", 1)
	case "child":
		from = here()
		log.New("c", 2).Crit("fatal child", "a", 1)
	case "deferred":
		defer os.WriteFile(os.Getenv("VERIF_CRIT_FILE"), []byte("deferred"), 0644)
		from = here()
		log.New("c", 2).New("d", 3).Crit("fatal deferred", "a", 1)
	}
	os.WriteFile(os.Getenv("VERIF_CRIT_FILE"), []byte("returned"), 0644)
	os.Exit(0)
}

func TestC13(t *testing.T) {
	if k := os.Getenv("VERIF_CRIT"); k != "" {
		critChild(k)
	}
	vk.Run(t, "C13", "every logging method, package function and call depth used from 8 source files of 4 packages, directly, through derived loggers, handler chains and threads; distinct = site, level, route", func(c *vk.C) {
		check := func(what string, h *col, lvl log.Lvl, msg, dir, file string, line int, before time.Time) {
			after := time.Now()
			g := h.take()
			c.Eval(fmt.Sprintf("%s %s/%s:%d %d", what, dir, file, line, lvl))
			if len(g) != 1 {
				c.Violate("count "+what, "%s produced %d records", what, len(g))
				return
			}
			x := g[0]
			if x.lvl != lvl || x.msg != msg {
				c.Violate("level "+what, "%s: logged %q at %v, record has %q at %v", what, msg, lvl, x.msg, x.lvl)
			}
			if x.tm.Before(before) || x.tm.After(after) {
				c.Violate("time "+what, "%s: record time %v outside the call [%v, %v]", what, x.tm, before, after)
			}
			want := fmt.Sprintf("%s%s/%s:%d", harnessPath, dir, file, line)
			if loc := fmt.Sprintf("%+v", x.rec.Call); loc != want {
				c.Violate("call site "+what, "%s: logged at %s, record says %s", what, want, loc)
			}
			if k := x.rec.KeyNames; k.Time != "t" || k.Lvl != "lvl" || k.Msg != "msg" || k.Ctx != "ctx" {
				c.Violate("key names "+what, "%s: key names %+v", what, k)
			}
			c.Sample("%s at %v -> %+v %v %q", what, lvl, x.rec.Call, x.lvl, x.msg)
		}
		for i := 0; i < c.N(8000, 200000); i++ {
			r := c.Rng("meta", i)
			s := siteTable[r.Intn(len(siteTable))]
			h := &col{}
			var hd log.Handler = h
			chain := ""
			for k := r.Intn(4); k > 0; k-- {
				switch r.Intn(6) {
				case 0:
					hd, chain = log.SyncHandler(hd), chain+"s"
				case 1:
					hd, chain = log.LazyHandler(hd), chain+"l"
				case 2:
					hd, chain = log.LvlFilterHandler(log.LvlTrace, hd), chain+"f"
				case 3:
					hd, chain = log.MultiHandler(log.DiscardHandler(), hd), chain+"m"
				case 4:
					hd, chain = log.FailoverHandler(hd), chain+"o"
				case 5:
					g := log.NewGlogHandler(hd)
					g.Verbosity(log.LvlTrace)
					hd, chain = g, chain+"g"
				}
			}
			log.Root().SetHandler(hd)
			lvl := log.Lvl(1 + r.Intn(5))
			msg := genString(r)
			args := []interface{}{"k", i}
			thread := r.Intn(4) == 0
			do := func(fn func()) {
				if !thread {
					fn()
					return
				}
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); fn() }()
				wg.Wait()
			}
			before := time.Now()
			switch r.Intn(6) {
			case 5: // statements of several files in one function
				which := r.Intn(5)
				l, lg := log.Lvl(r.Intn(6)), log.Root()
				if which >= 3 {
					l, lg = log.LvlInfo, log.New("x", 1)
				}
				var n int
				do(func() { n = site.InlMixed(lg, msg, l, which) })
				check(fmt.Sprintf("inlined %d via %s", which, chain), h, l, msg, "site", []string{"inl_use.go", "inl_help.go"}[which&1], n, before)
			case 4: // many calls up
				l := log.Lvl(r.Intn(6))
				n, d := vk.Tail(r, 6, 12, 150), 0
				d = r.Intn(n + 2)
				if r.Intn(3) == 0 {
					d = n + 1
				}
				var lines []int
				do(func() {
					k, s := site.DeepA(msg, l, d, n, r.Uint64())
					lines = append(s, k)
				})
				file := "deep.go"
				if d == 0 {
					file = "a.go"
				}
				args = nil
				check("Output from deep down via "+chain, h, l, msg, "site", file, lines[d], before)
			case 0:
				l := log.Root()
				for k := r.Intn(3); k > 0; k-- {
					l = l.New("x", k)
				}
				var n int
				do(func() { n = s.m[lvl-1](l, msg, args...) })
				check("method via "+chain, h, lvl, msg, s.dir, s.file, n, before)
			case 1:
				var n int
				do(func() { n = s.p[lvl-1](msg, args...) })
				check("function via "+chain, h, lvl, msg, s.dir, s.file, n, before)
			case 2:
				l := log.Lvl(r.Intn(6))
				var a, b int
				d := r.Intn(2)
				do(func() { a, b = s.o1(msg, l, d, args...) })
				check(fmt.Sprintf("Output depth %d via %s", d, chain), h, l, msg, s.dir, s.file, [2]int{b, a}[d], before)
			case 3:
				l := log.Lvl(r.Intn(6))
				var a, b, e int
				d := r.Intn(3)
				do(func() { a, b, e = s.o2(msg, l, d, args...) })
				check(fmt.Sprintf("Output depth %d via %s", d, chain), h, l, msg, s.dir, s.file, [3]int{e, b, a}[d], before)
			}
		}
		for l := log.LvlCrit; l <= log.LvlTrace; l++ {
			if back, err := log.LvlFromString(l.String()); err != nil || back != l {
				c.Violate("level name", "level %d is named %q, which reads back as %v (%v)", int(l), l.String(), back, err)
			}
			if back, err := log.LvlFromString(strings.ToLower(strings.TrimSpace(l.AlignedString()))); err != nil || back != l || len(l.AlignedString()) != 5 {
				c.Violate("level long name", "level %d is named %q, which reads back as %v (%v)", int(l), l.AlignedString(), back, err)
			}
		}
		r := c.Rng("badlvl", 0)
		for i := 0; i < 6000; i++ {
			s := genString(r)
			if i%2 == 0 { // nearly a name
				s = []string{"trace", "trce", "debug", "dbug", "info", "warn", "error", "eror", "crit"}[r.Intn(9)]
				k := r.Intn(len(s) + 1)
				switch r.Intn(5) {
				case 0:
					s = s[:k]
				case 1:
					s = s[k:]
				case 2:
					s = s[:k] + string(rune('a'+r.Intn(26))) + s[k:]
				case 3:
					s += []string{"s", "2", "r", "ing", ",", "=3", "x", s}[r.Intn(8)]
				case 4:
					s = s[:k] + "e" + s[min(len(s), k+1):]
				}
			}
			switch s {
			case "trace", "trce", "debug", "dbug", "info", "warn", "error", "eror", "crit":
				continue
			}
			if _, err := log.LvlFromString(s); err == nil {
				c.Violate("bad level accepted", "LvlFromString(%q) succeeded", s)
			}
		}
		// Critical records end the process after they are written.
		dir := os.Getenv("VERIF_SCRATCH")
		if dir == "" {
			dir = t.TempDir()
		}
		for _, k := range []string{"pkg", "root", "child", "deferred"} {
			f := filepath.Join(dir, "crit-"+k)
			cmd := exec.Command(os.Args[0], "-test.run", "^TestC13$")
			for _, e := range os.Environ() {
				if !strings.HasPrefix(e, "VERIF_") {
					cmd.Env = append(cmd.Env, e)
				}
			}
			cmd.Env = append(cmd.Env, "VERIF_CRIT="+k, "VERIF_CRIT_FILE="+f)
			out, err := cmd.CombinedOutput()
			code := cmd.ProcessState.ExitCode()
			b, _ := os.ReadFile(f)
			c.Eval("crit " + k)
			site, _ := os.ReadFile(f + ".site")
			if p := strings.Fields(string(site)); len(p) != 2 || p[0] != p[1] {
				c.Violate("crit call site "+k, "call site recorded and actual: %q", site)
			}
			c.Sample("Crit(%s): exit %d, %q", k, code, b)
			if code != 1 {
				c.Violate("crit exit "+k, "critical record: process ended with %d (%v)\n%s", code, err, out)
			}
			if !bytes.Contains(b, []byte(`"lvl":"crit"`)) || !bytes.Contains(b, []byte(`"msg":"fatal `+k+`"`)) || !bytes.Contains(b, []byte(`"a":1`)) {
				c.Violate("crit record "+k, "critical record not written before the process ended: %q", b)
			}
		}
	})
}
