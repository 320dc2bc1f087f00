package log

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"verifharness/log/site"
	"verifharness/vk"
)

// ------------------------------------------------------------------ C18

var someErr = errors.New("some")

func matchVal(r *rand.Rand) interface{} {
	return []interface{}{1, 2, int64(1), "x", "y", nil, true, 1.5, someErr, errors.New("some"), time.Unix(5, 0).UTC(), time.Unix(6, 0).UTC(), log.LvlInfo, log.LvlWarn, "a", "b", "c", "lvl",
		// nearly equal to one another
		3, 2, int64(3), uint(1), 1.0, "1", "1.5", "true", "nil", "<nil>", "some", "info", "warn", "INFO", named("x"), named("m"), strT{"x"}, strT{"y"}, &strT{"x"}, "1970-01-01 00:00:05 +0000 UTC", int64(5), "X", "x ", 'x', uint8('x'), [1]string{"x"}}[r.Intn(44)]
}

// anyLvl is mostly one of the named levels; levels are plain numbers, though.
func anyLvl(r *rand.Rand) log.Lvl {
	switch r.Intn(12) {
	case 0:
		return log.Lvl(r.Intn(600) - 300)
	case 1:
		return log.Lvl([]int{-1, 6, 127, 128, 255, 256, 259, -128, -129, 1 << 16, 1 << 31, 1<<32 + 3, -1 << 31, -1 << 40}[r.Intn(14)])
	}
	return log.Lvl(r.Intn(6))
}

// A filter under test and its meaning.
type filt struct {
	wrap func(log.Handler) log.Handler
	ok   func(*log.Record) bool
	desc string
}

func genFilter(r *rand.Rand) filt {
	switch r.Intn(3) {
	case 0:
		m := anyLvl(r)
		return filt{func(h log.Handler) log.Handler { return log.LvlFilterHandler(m, h) },
			func(x *log.Record) bool { return int(x.Lvl) <= int(m) }, fmt.Sprint("lvl<=", int(m))}
	case 1:
		k := 1 + r.Intn(3)
		return filt{func(h log.Handler) log.Handler {
			return log.FilterHandler(func(x *log.Record) bool { return len(x.Msg)%k == 0 }, h)
		},
			func(x *log.Record) bool { return len(x.Msg)%k == 0 }, fmt.Sprint("len%", k)}
	}
	key := []string{"a", "b", "c", "t", "lvl", "msg", ""}[r.Intn(7)]
	v := matchVal(r)
	if key == "msg" && r.Intn(2) == 0 {
		v = []interface{}{"", "m", "mm", "M", named("m"), 'm', "m "}[r.Intn(7)]
	} else if key == "lvl" && r.Intn(2) == 0 {
		v = []interface{}{log.Lvl(r.Intn(6)), r.Intn(6), "info", "eror", "3", int64(1), uint(2)}[r.Intn(7)]
	}
	return filt{func(h log.Handler) log.Handler { return log.MatchFilterHandler(key, v, h) },
		func(x *log.Record) bool {
			switch key {
			case "lvl":
				l, ok := v.(log.Lvl)
				return ok && l == x.Lvl
			case "t":
				tm, ok := v.(time.Time)
				return ok && tm == x.Time
			case "msg":
				s, ok := v.(string)
				return ok && s == x.Msg
			}
			for i := 0; i+1 < len(x.Ctx); i += 2 {
				if s, ok := x.Ctx[i].(string); ok && s == key {
					return x.Ctx[i+1] == v
				}
			}
			return false
		}, fmt.Sprintf("match %q %T", key, v)}
}

func TestC18(t *testing.T) {
	vk.Run(t, "C18", "random records through random stacks of level, match and custom filters, compared with the predicate each one states; distinct = different filter stacks and outcomes", func(c *vk.C) {
		for i := 0; i < c.N(15000, 2000000); i++ {
			r := c.Rng("filt", i)
			sink := &col{}
			if r.Intn(2) == 0 {
				sink.err = errors.New("sink")
			}
			var h log.Handler = sink
			var fs []filt
			desc := ""
			for k := 1 + r.Intn(3); k > 0; k-- {
				f := genFilter(r)
				fs = append(fs, f)
				h = f.wrap(h)
				desc += f.desc + "; "
			}
			for j := 0; j < 6; j++ {
				var ctx []interface{}
				many := r.Intn(5)
				if i%40 == 9 && j < 3 { // the key is rare and far back
					many = r.Intn(6)
					for k := r.Intn(2000); k > 0; k-- {
						ctx = append(ctx, fmt.Sprint("x", k%50), matchVal(r))
					}
				}
				for k := many; k > 0; k-- {
					ctx = append(ctx, []interface{}{"a", "b", "c", "t", "lvl", "msg", "", 1, "d"}[r.Intn(9)], matchVal(r))
				}
				rec := mkRecord(r, anyLvl(r), strings.Repeat("m", r.Intn(4)), ctx)
				if r.Intn(3) == 0 {
					rec.Time = time.Unix(5, 0).UTC()
				}
				want := true
				for _, f := range fs {
					want = want && f.ok(rec)
				}
				before := fmt.Sprintf("%v", *rec)
				var err error
				if !c.NoPanic(desc, func() { err = h.Log(rec) }) {
					continue
				}
				g := sink.take()
				if want != (len(g) == 1) || len(g) > 1 {
					c.Violate("passed wrongly", "filters %s: record lvl=%d msg=%q ctx=%v delivered %d times, predicate says %v", desc, int(rec.Lvl), rec.Msg, rec.Ctx, len(g), want)
				}
				if want && (err != sink.err || g[0].rec != rec) || !want && err != nil {
					c.Violate("result", "filters %s: passed=%v, error %v, sink error %v", desc, want, err, sink.err)
				}
				if s := fmt.Sprintf("%v", *rec); s != before {
					c.Violate("record changed", "filters %s changed the record from %s to %s", desc, before, s)
				}
				c.Eval(fmt.Sprint(desc, want, j))
				c.Count(fmt.Sprint("passed=", want), 1)
				c.Sample("%s lvl=%v ctx=%v -> %v", desc, rec.Lvl, rec.Ctx, want)
			}
		}
		// Filters hold no state: concurrent use decides the same.
		var wg sync.WaitGroup
		sink := &col{}
		h := log.MatchFilterHandler("k", 1, log.LvlFilterHandler(log.LvlInfo, sink))
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 400; i++ {
					h.Log(mkRecord(rand.New(rand.NewSource(1)), log.Lvl(i%6), "m", []interface{}{"k", i % 2}))
				}
			}()
		}
		wg.Wait()
		n := 0
		for i := 0; i < 400; i++ {
			if i%6 <= 3 && i%2 == 1 {
				n++
			}
		}
		if g := sink.take(); len(g) != 8*n {
			c.Violate("concurrent filter", "%d of %d records passed", len(g), 8*n)
		}
	})
}

// ------------------------------------------------------------------ C19

// globMatch: do the pattern components match a contiguous stretch of path
// components ending at the end? "*" stands for any number of components.
func globMatch(pat, path []string) bool {
	if len(pat) == 0 {
		return len(path) == 0
	}
	if pat[0] == "*" {
		for i := 0; i <= len(path); i++ {
			if globMatch(pat[1:], path[i:]) {
				return true
			}
		}
		return false
	}
	return len(path) > 0 && pat[0] == path[0] && globMatch(pat[1:], path[1:])
}

func vmoduleMatch(pat, path string) bool {
	var ps []string
	for _, x := range strings.Split(pat, "/") {
		if x != "" {
			ps = append(ps, x)
		}
	}
	comps := strings.Split(path, "/")
	if !strings.HasSuffix(pat, ".go") {
		comps = comps[:len(comps)-1] // any file
	}
	for s := 1; s <= len(comps); s++ {
		if globMatch(ps, comps[s:]) {
			return true
		}
	}
	return false
}

type vrule struct {
	pat string
	lvl int
}

var vpats = []string{"gopher.go", "a.go", "foo", "foo/*", "bar/*", "baz", "bar/foo", "foo/baz", "foo/gopher.go", "foo/a.go", "site/*", "site", "log/site", "*", "*/foo", "*/foo/*", "bar/*/gopher.go", "log/*/a.go", "log/*/foo", "fo", "oo", "gopherxgo", "opher.go", "/foo", "foo/", "site//foo", "log/*/baz/*", "nothere", "site/*/baz/*/a.go", "foo/*/foo", "bar", "nats.go", "nats.go/*", "nats.go/jet", "jet/client.go", "*/nats.go", "client.go", "site/nats.go", "jet", "lient.go", "nats", "v1.2", "v1.2/api", "v1.2/*", "v1x2/*", "v1.2/api/a.go", "api", "mango", "mango/*", "mango/a.go", "ango", "site/mango", "api/a.go", "*/api",
	"FOO", "Foo/*", "foo/GOPHER.go", "A.go", "a.GO", "Site/*", "SITE", "...", "foo/...", ".../foo", "**", "**/foo", "foo/**", "fo?", "f*", "*o", "[a-z]*.go", "a|b", "(foo)", "^foo", "foo$", ".*", "go+her.go", "gopher.?go", "f[o]o", "foo/.", "./foo", "../foo", "inl_use.go", "inl_help.go"}

func genRuleset(r *rand.Rand) (string, []vrule, bool) {
	var parts []string
	var rules []vrule
	ok := true
	for k := r.Intn(5); k > 0; k-- {
		p := vpats[r.Intn(len(vpats))]
		l := r.Intn(7)
		switch r.Intn(14) {
		case 0:
			l = -r.Intn(3)
		case 1:
			l = []int{100, 127, 128, 200, 255, 256, 300, 1000, 65535, 65536, 1 << 31}[r.Intn(11)]
		}
		sp := []string{"", "", "", " ", "\t"}
		parts = append(parts, sp[r.Intn(5)]+p+sp[r.Intn(5)]+"="+sp[r.Intn(5)]+fmt.Sprint(l)+sp[r.Intn(5)])
		if l > 0 {
			rules = append(rules, vrule{p, l})
		}
		if r.Intn(8) == 0 {
			parts = append(parts, "")
		}
	}
	if r.Intn(5) == 0 {
		ok = false
		bad := []string{"foo", "foo=", "=3", "foo=x", "foo=1=2", " ", "foo=1.5", "a.go= ", " =2", "foo=99999999999999999999"}[r.Intn(10)]
		at := r.Intn(len(parts) + 1)
		parts = append(parts[:at], append([]string{bad}, parts[at:]...)...)
	}
	return strings.Join(parts, ","), rules, ok
}

func glogCase(c *vk.C, i int) {
	r := c.Rng("glog", i)
	sink := &col{}
	if r.Intn(3) == 0 {
		sink.err = errors.New("sink")
	}
	g := log.NewGlogHandler(sink)
	log.Root().SetHandler(g)
	verb := 0
	var rules []vrule
	btFile, btLine := "", 0
	hist := ""
	for step := 0; step < 20+r.Intn(30); step++ {
		switch k := r.Intn(14); {
		case k == 0:
			verb = r.Intn(6)
			if r.Intn(10) == 0 {
				verb = []int{6, 9, 100, 255, 256, 258, 1000, 65536 + 2}[r.Intn(8)]
			}
			g.Verbosity(log.Lvl(verb))
			hist += fmt.Sprintf("verbosity %d; ", verb)
			continue
		case k <= 2:
			rs, rr, ok := genRuleset(r)
			err := g.Vmodule(rs)
			hist += fmt.Sprintf("vmodule %q; ", rs)
			if (err == nil) != ok {
				c.Violate("vmodule syntax", "Vmodule(%q) returned %v, valid=%v", rs, err, ok)
			}
			if ok {
				rules = rr
			}
			c.Count("rulesets", 1)
			continue
		case k == 3 && r.Intn(3) < 2:
			s := siteTable[r.Intn(len(siteTable))]
			if r.Intn(3) == 0 {
				bad := []string{"gopher.go", "gopher.go:", ":12", "gopher:12", "gopher.go:x", "a.go:1:2", "a.c:1", " :3", "a.go: "}[r.Intn(9)]
				if err := g.BacktraceAt(bad); err == nil {
					c.Violate("backtrace syntax", "BacktraceAt(%q) accepted", bad)
				}
				hist += fmt.Sprintf("backtrace %q; ", bad)
				continue
			}
			btFile, btLine = s.file, 12+r.Intn(20)
			if r.Intn(2) == 0 {
				btLine = 25
			}
			switch r.Intn(7) { // near misses
			case 0:
				btLine = 1 + r.Intn(9)
			case 1:
				btLine = btLine*10 + r.Intn(10)
			case 2:
				btFile = btFile[r.Intn(len(btFile)-3):]
			case 3:
				btFile = "o" + btFile
			}
			if err := g.BacktraceAt(fmt.Sprintf("%s:%d", btFile, btLine)); err != nil {
				c.Violate("backtrace rejected", "BacktraceAt(%s:%d): %v", btFile, btLine, err)
			}
			hist += fmt.Sprintf("backtrace %s:%d; ", btFile, btLine)
			continue
		case k == 4 && r.Intn(4) == 0:
			sink = &col{}
			g.SetHandler(sink)
			hist += "sethandler; "
			continue
		}
		s := siteTable[r.Intn(len(siteTable))]
		lvl := log.Lvl(1 + r.Intn(5))
		msg := fmt.Sprint("m", step)
		line := 0
		switch r.Intn(3) {
		case 0:
			line = s.m[lvl-1](log.Root(), msg, "k", step)
		case 1:
			line = s.p[lvl-1](msg, "k", step)
		case 2:
			switch r.Intn(6) {
			case 0:
				lvl = log.LvlCrit
			case 1: // levels beyond the named ones
				lvl = log.Lvl([]int{6, 7, 9, 10, 100, 128, 130, 200, 255, 256, 257, 261, 1000, 65536 + 1}[r.Intn(14)])
			}
			line = s.o0(msg, lvl, 0, "k", step)
		}
		path := harnessPath + s.dir + "/" + s.file
		recs := sink.take()
		eff := lvl
		bt := btFile == s.file && btLine == line
		if bt {
			eff = log.LvlInfo
		}
		// First matching rule decides the site's own ceiling.
		site := 0
		for _, ru := range rules {
			if vmoduleMatch(ru.pat, path) {
				site = ru.lvl
				break
			}
		}
		want := int(eff) <= verb || int(eff) <= site
		hist += fmt.Sprintf("%s:%d@%d=%v; ", path[len(harnessPath):], line, lvl, len(recs))
		if (len(recs) == 1) != want || len(recs) > 1 {
			c.Violate("decision", "record at level %d from %s:%d written %d times; verbosity %d, rules %v (site ceiling %d), backtrace %s:%d\n%s", lvl, path, line, len(recs), verb, rules, site, btFile, btLine, hist)
			return
		}
		if want {
			x := recs[0]
			switch {
			case bt:
				if x.lvl != log.LvlInfo || !strings.HasPrefix(x.msg, msg) || !strings.Contains(x.msg, "goroutine ") || !strings.Contains(x.msg, s.file+":"+fmt.Sprint(line)) || !strings.Contains(x.msg, "bystander") {
					c.Violate("backtrace", "record at the backtrace location %s:%d written at %d without the stacks of all threads: %.200q", btFile, btLine, int(x.lvl), x.msg)
				}
				c.Count("backtraces", 1)
			case x.msg != msg || x.lvl != lvl:
				c.Violate("record altered", "record %q at %d written as %.100q at %d (backtrace %s:%d, site line %d)", msg, int(lvl), x.msg, int(x.lvl), btFile, btLine, line)
			}
			if len(x.ctx) != 2 || x.ctx[0] != "k" || x.ctx[1] != step {
				c.Violate("context altered", "context %v", x.ctx)
			}
		}
		c.Count(fmt.Sprintf("written=%v", want), 1)
		c.Eval(fmt.Sprint(verb, rules, path, line, lvl, bt))
	}
	c.Sample("%s", hist)
}

// Reconfiguration while many threads log: only decisions some configuration
// in effect could make.
func glogStorm(c *vk.C, i int) {
	r := c.Rng("gstorm", i)
	sink := &col{}
	g := log.NewGlogHandler(sink)
	log.Root().SetHandler(g)
	lo, hi := 1+r.Intn(2), 3
	stop := make(chan struct{})
	var wg, cw sync.WaitGroup
	cw.Add(1)
	rc := c.Rng("gstormc", i)
	g.Verbosity(log.Lvl(lo))
	go func() {
		defer cw.Done()
		for k := 0; ; k++ {
			select {
			case <-stop:
				return
			default:
			}
			switch rc.Intn(3) {
			case 0:
				g.Verbosity(log.Lvl(lo + rc.Intn(hi-lo+1)))
			case 1:
				g.Vmodule(fmt.Sprintf("foo/*=%d,gopher.go=%d", lo+rc.Intn(hi-lo+1), 1+rc.Intn(hi)))
			case 2:
				g.BacktraceAt("nosuch.go:1")
			}
			vk.Yield(rc)
		}
	}()
	const G, M = 5, 40
	for k := 0; k < G; k++ {
		rk := c.Rng("gstormk", i*10+k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := 0; m < M; m++ {
				s := siteTable[rk.Intn(len(siteTable))]
				l := log.Lvl(1 + m%5)
				s.o0(fmt.Sprint(k, "/", m), l, 0)
				if m%8 == 0 {
					vk.Yield(rk)
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	cw.Wait()
	seen := map[string]int{}
	recs := sink.take()
	for _, x := range recs {
		seen[x.msg]++
		if int(x.lvl) > hi {
			c.Violate("storm excess", "record at level %d written though no configuration allowed more than %d", x.lvl, hi)
		}
	}
	for k := 0; k < G; k++ {
		for m := 0; m < M; m++ {
			n := seen[fmt.Sprint(k, "/", m)]
			if l := 1 + m%5; n > 1 || l <= lo && n != 1 {
				c.Violate("storm count", "record at level %d written %d times though every configuration allowed %d", l, n, lo)
			}
		}
	}
	// Then quiet: the last configuration applies, whatever was cached.
	g.Vmodule("site/*=4")
	g.Verbosity(1)
	for _, s := range siteTable {
		for l := log.LvlError; l <= log.LvlTrace; l++ {
			s.o0("final", l, 0)
			if n := len(sink.take()); (n == 1) != (l <= 4) {
				c.Violate("stale decision", "after site/*=4 a record at level %d from %s/%s was written %d times", l, s.dir, s.file, n)
			}
		}
	}
	c.Eval(fmt.Sprint("storm ", len(recs)))
	c.Count("storm records", G*M)
}

// glogSettle: rules are exchanged while threads log at sites not decided yet;
// once everything is quiet each site must follow the rules in force, not what
// some thread worked out under the former ones.
func glogSettle(c *vk.C, i int) {
	r := c.Rng("gsettle", i)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{2, 4, 8}[r.Intn(3)]))
	sink := &col{}
	g := log.NewGlogHandler(sink)
	log.Root().SetHandler(g)
	pad := strings.Repeat("no/such/file.go=5,", r.Intn(120))
	for round := 0; round < 6; round++ {
		g.Vmodule(fmt.Sprintf("%ssite/*=%d", pad, 1+r.Intn(5)))
		var wg sync.WaitGroup
		for k := 0; k < 2+r.Intn(4); k++ {
			kr := c.Rng("gsettlek", i*100+round*10+k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for m := 0; m < 6; m++ {
					siteTable[kr.Intn(len(siteTable))].o0("during", log.LvlTrace, 0)
				}
			}()
		}
		for k := r.Intn(4); k > 0; k-- {
			vk.Yield(r)
		}
		final := 1 + r.Intn(5)
		g.Vmodule(fmt.Sprintf("%ssite/*=%d", pad, final))
		wg.Wait()
		sink.take()
		for _, s := range siteTable {
			for l := log.LvlError; l <= log.LvlTrace; l++ {
				s.o0("after", l, 0)
				if n := len(sink.take()); (n == 1) != (int(l) <= final) {
					c.Violate("stale decision", "rules changed to site/*=%d while logging; afterwards a record at level %d from %s/%s was written %d times", final, l, s.dir, s.file, n)
				}
			}
		}
	}
	c.Eval(fmt.Sprint("settle ", i))
	c.Count("rule exchanges", 6)
}

// glogMany: hundreds of rules and logging statements, each decided again and
// again.
func glogMany(c *vk.C, i int) {
	r := c.Rng("gmany", i)
	sink := &col{}
	g := log.NewGlogHandler(sink)
	log.Root().SetHandler(g)
	type site_ struct {
		path string
		fn   func(string, log.Lvl)
	}
	var sites []site_
	for k := vk.Tail(r, 4, 60, len(site.Many)-1); k >= 0; k-- {
		sites = append(sites, site_{harnessPath + "site/many.go", site.Many[k]})
	}
	for _, s := range siteTable {
		o0 := s.o0
		sites = append(sites, site_{harnessPath + s.dir + "/" + s.file, func(m string, l log.Lvl) { o0(m, l, 0) }})
	}
	for round := 0; round < 2; round++ {
		n := []int{1 + r.Intn(40), 8 + r.Intn(300), 127, 128, 255, 256, 257, 512, 1024}[r.Intn(9)]
		var rules []vrule
		text := ""
		for k := 0; k < n; k++ {
			pat := fmt.Sprintf("no%d/such.go", k)
			if r.Intn(n) < 6 {
				pat = append(vpats, "many.go", "site/many.go")[r.Intn(len(vpats)+2)]
			}
			rules = append(rules, vrule{pat, 1 + r.Intn(5)})
			text += fmt.Sprintf("%s=%d,", pat, rules[k].lvl)
		}
		if err := g.Vmodule(text); err != nil {
			c.Violate("many rules", "%d rules refused: %v", n, err)
			return
		}
		ceil := map[string]int{}
		for _, s := range sites {
			if _, ok := ceil[s.path]; ok {
				continue
			}
			ceil[s.path] = 0
			for _, ru := range rules {
				if vmoduleMatch(ru.pat, s.path) {
					ceil[s.path] = ru.lvl
					break
				}
			}
		}
		for k := 0; k < 2*len(sites); k++ {
			j := r.Intn(len(sites))
			if k < len(sites) {
				j = k
			}
			s, l := sites[j], log.Lvl(1+r.Intn(5))
			s.fn("m", l)
			if got := len(sink.take()); (got == 1) != (int(l) <= ceil[s.path]) || got > 1 {
				c.Violate("many decisions", "%d rules, %d logging statements: record at level %d from %s written %d times, its first rule says %d\nrules %.2000s", n, len(sites), l, s.path, got, ceil[s.path], text)
				return
			}
		}
		c.Eval(fmt.Sprint("many ", n, len(sites)))
		c.Count("decisions among many", 2*len(sites))
	}
}

// glogInlined: statements of two files in one function follow the rules of
// their own files.
func glogInlined(c *vk.C, i int) {
	r := c.Rng("ginl", i)
	sink := &col{}
	g := log.NewGlogHandler(sink)
	log.Root().SetHandler(g)
	ceil := [2]int{r.Intn(6), r.Intn(6)} // of inl_use.go, inl_help.go
	if err := g.Vmodule(fmt.Sprintf("inl_use.go=%d,inl_help.go=%d", ceil[0], ceil[1])); err != nil {
		c.Violate("vmodule syntax", "%v", err)
	}
	hist := fmt.Sprint(ceil)
	for k := 0; k < 12; k++ {
		which := r.Intn(6)
		l := log.Lvl(1 + r.Intn(5))
		want := 0
		if which == 5 {
			site.InlOrder(log.Root(), "m", l)
			want = b2i(int(l) <= ceil[1]) + 2*b2i(int(l) <= ceil[0])
		} else {
			if which >= 3 {
				l = log.LvlInfo
			}
			site.InlMixed(log.Root(), "m", l, which)
			want = b2i(int(l) <= ceil[which&1])
		}
		hist += fmt.Sprintf(" %d@%d", which, int(l))
		if n := len(sink.take()); n != want {
			c.Violate("inlined statements", "inl_use.go=%d,inl_help.go=%d: statement %d at level %d wrote %d records, want %d (%s)", ceil[0], ceil[1], which, int(l), n, want, hist)
			return
		}
	}
	c.Eval("inlined " + hist)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// glogCrowd: a backtrace shows all threads, however many there are.
func glogCrowd(c *vk.C, i int) (ok bool) {
	r := c.Rng("gcrowd", i)
	sink := &col{}
	g := log.NewGlogHandler(sink)
	log.Root().SetHandler(g)
	stop := make(chan struct{})
	n := 20 + r.Intn(400)
	var up, down sync.WaitGroup
	for k := 0; k < n; k++ {
		up.Add(1)
		down.Add(1)
		go func() { defer down.Done(); up.Done(); bystander(stop) }()
	}
	up.Wait()
	s := siteTable[r.Intn(len(siteTable))]
	g.Verbosity(log.LvlInfo)
	line := s.o0("probe", log.LvlInfo, 0)
	sink.take()
	if err := g.BacktraceAt(fmt.Sprintf("%s:%d", s.file, line)); err != nil {
		c.Violate("backtrace rejected", "%v", err)
	}
	// Wait until all are where they are going to stay.
	for dead := time.Now().Add(20 * time.Second); ; time.Sleep(time.Millisecond) {
		s.o0("crowd", log.LvlTrace, 0)
		x := sink.take()
		got := -1
		if len(x) == 1 {
			got = strings.Count(x[0].msg, "log.bystander(")
		}
		if ok = got >= n; ok {
			break
		}
		if time.Now().After(dead) {
			c.Violate("backtrace crowd", "%d threads wait in bystander; the record at the backtrace location %s:%d shows %d of them", n, s.file, line, got)
			break
		}
	}
	close(stop)
	down.Wait()
	c.Eval(fmt.Sprint("crowd ", n))
	c.Count("threads in backtraces", n)
	return ok
}

// bystander is a thread doing something else while records are written.
func bystander(stop chan struct{}) { <-stop }

func TestC19(t *testing.T) {
	stop := make(chan struct{})
	defer close(stop)
	go bystander(stop)
	vk.Run(t, "C19", "histories of verbosity, module and backtrace settings (valid and invalid) interleaved with records from 9 files of 5 packages at every level, compared with an independent path matcher; concurrent reconfiguration storms; distinct = configuration, site and level", func(c *vk.C) {
		for i := 0; i < c.N(2500, 80000); i++ {
			c.NoPanic("glog", func() { glogCase(c, i) })
		}
		for i := 0; i < c.N(24, 500); i++ {
			c.NoPanic("glog", func() { glogMany(c, i) })
		}
		for i := 0; i < c.N(400, 8000); i++ {
			c.NoPanic("glog", func() { glogInlined(c, i) })
		}
		for i, ok := 0, true; ok && i < c.N(12, 200); i++ {
			fine := false
			c.NoPanic("glog", func() { fine = glogCrowd(c, i) })
			ok = fine
		}
		for i := 0; i < c.N(60, 2000); i++ {
			glogStorm(c, i)
		}
		for i := 0; i < c.N(60, 3000); i++ {
			glogSettle(c, i)
		}
	})
}
