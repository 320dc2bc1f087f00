package log

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	"flychain/log"
	"verifharness/log/site"
	barfoo "verifharness/log/site/bar/foo"
	"verifharness/log/site/foo"
	"verifharness/log/site/foo/baz"
	"verifharness/vk"

	"github.com/go-stack/stack"
)

type entry struct {
	key        interface{}
	v          interface{}
	kind       string
	text, term string
}

func genCtx(r *rand.Rand, badKeys bool) ([]entry, []interface{}) {
	var es []entry
	var ctx []interface{}
	n := r.Intn(6)
	if r.Intn(100) == 0 {
		n = 20 + r.Intn(200)
	}
	if r.Intn(2500) == 0 {
		n = 2200 + r.Intn(1000)
	}
	for i := 0; i < n; i++ {
		var e entry
		e.key = genString(r)
		if badKeys && r.Intn(12) == 0 {
			e.key = []interface{}{1, nil, true, 2.5, strT{"x"}, []int{1}, (*ptrStr)(nil), (*ptrErr)(nil), errors.New("=\n"), named("k"), big.NewInt(7), (*big.Int)(nil), time.Unix(1, 2)}[r.Intn(13)]
		}
		e.v, e.kind, e.text, e.term = genVal(r)
		if n > 1000 && e.kind == "float64" { // not all of them have a JSON form
			e.v, e.kind, e.text, e.term = 2.5, "float64", "2.500", "2.500"
		}
		es = append(es, e)
		ctx = append(ctx, e.key, e.v)
	}
	return es, ctx
}

// reserved renames a field to a name the library uses itself.
func reserved(r *rand.Rand, es []entry, ctx []interface{}) {
	if len(es) == 0 || r.Intn(30) > 0 {
		return
	}
	i := r.Intn(len(es))
	es[i].key = []string{errorKey, "t", "lvl", "msg", "ctx", "caller", "fn", "stack", "failover_err_0", "nil", ""}[r.Intn(11)]
	ctx[2*i] = es[i].key
}

func kindsOf(es []entry) string {
	var sb strings.Builder
	for _, e := range es {
		fmt.Fprintf(&sb, "%T:%s ", e.key, e.kind)
	}
	return sb.String()
}

// checkPairs compares parsed pairs with the entries logged.
func checkPairs(c *vk.C, what string, got []pair, es []entry, term bool, line string) {
	if len(got) != len(es) {
		c.Violate(what+": number of fields", "%s: line has %d fields, %d were logged: %q", what, len(got), len(es), line)
		return
	}
	for i, e := range es {
		want := e.text
		if term {
			want = e.term
		}
		ks, ok := e.key.(string)
		if !ok {
			if got[i].k != errorKey {
				c.Violate(what+": bad key", "%s: non-string key %v printed as key %q, not flagged: %q", what, e.key, got[i].k, line)
			}
			continue
		}
		if got[i].k != ks {
			c.Violate(what+": key", "%s: field %d has key %q, logged %q: %q", what, i, got[i].k, ks, line)
		}
		if got[i].v != want {
			c.Violate(what+": value "+e.kind, "%s: field %q (%s) reads back as %q, logged %q: %q", what, ks, e.kind, got[i].v, want, line)
		}
	}
}

// rawByte finds a byte that could break the line or drive a terminal.
func rawByte(s string) string {
	if !utf8.ValidString(s) {
		return "invalid UTF-8"
	}
	for _, x := range s {
		if !strconv.IsPrint(x) {
			return fmt.Sprintf("character %U", x)
		}
	}
	return ""
}

func TestC14(t *testing.T) {
	vk.Run(t, "C14", "random records (messages, keys and values of every kind with control characters, quotes, escapes, invalid UTF-8) formatted as logfmt and parsed back by an independent parser; distinct = different kinds of fields and line shape", func(c *vk.C) {
		f := log.LogfmtFormat()
		var mu sync.Mutex
		run := func(i int, lane string) {
			r := c.Rng("lf"+lane, i)
			es, ctx := genCtx(r, true)
			reserved(r, es, ctx)
			msg := genString(r)
			lvl := log.Lvl(r.Intn(6))
			rec := mkRecord(r, lvl, msg, ctx)
			if r.Intn(20) == 0 {
				rec.KeyNames = log.RecordKeyNames{Time: "T", Msg: "M", Lvl: "L", Ctx: "C"}
			}
			before := fmt.Sprintf("%#v", rec.Ctx)
			var b []byte
			if !c.Never(fmt.Sprintf("logfmt %q %s", msg, kindsOf(es)), func() { b = f.Format(rec) }) {
				return
			}
			line := string(b)
			if !strings.HasSuffix(line, "\n") || strings.Count(line, "\n") != 1 {
				c.Violate("not one line", "record printed as %q", line)
				return
			}
			if x := rawByte(line[:len(line)-1]); x != "" {
				c.Violate("raw byte", "%s printed raw: %q", x, line)
			}
			if after := fmt.Sprintf("%#v", rec.Ctx); after != before {
				c.Violate("context changed", "formatting changed the record's context from %s to %s", before, after)
			}
			got, err := parseLine(strings.TrimSuffix(line, "\n"))
			if err != nil {
				c.Violate("unparseable", "%v in %q (message %q)", err, line, msg)
				return
			}
			want := append([]entry{
				{key: rec.KeyNames.Time, text: rec.Time.Format("2006-01-02T15:04:05-0700"), kind: "time"},
				{key: rec.KeyNames.Lvl, text: lvlNames[lvl], kind: "lvl"},
				{key: rec.KeyNames.Msg, text: msg, kind: "msg"},
			}, es...)
			checkPairs(c, "logfmt", got, want, false, line)
			mu.Lock()
			c.Eval(fmt.Sprintf("%s %d", kindsOf(es), len(line)))
			c.Count("fields", len(want))
			c.Sample("%q", line)
			mu.Unlock()
		}
		for i := 0; i < c.N(20000, 600000); i++ {
			run(i, "")
		}
		// Concurrent formatting shares the field padding table.
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				for i := 0; i < c.N(400, 8000); i++ {
					run(i, fmt.Sprint("g", g))
				}
			}()
		}
		wg.Wait()
	})
}

// ------------------------------------------------------------------ C15

var sitesCalls = []func(int) stack.Call{site.GCall, foo.GCall, barfoo.GCall, baz.GCall}

var termColor = map[log.Lvl]int{log.LvlCrit: 35, log.LvlError: 31, log.LvlWarn: 33, log.LvlInfo: 32, log.LvlDebug: 36, log.LvlTrace: 34}

func needsQuote(msg string) bool {
	for _, x := range []byte(msg) {
		if x == '\n' || x == '\r' {
			continue
		}
		if x < 0x20 || x > 0x7e || x == '=' {
			return true
		}
	}
	return false
}

// growingOrigins: threads print records from ever longer places at once; the
// width reserved for the place is common to all of them.
func growingOrigins(c *vk.C) {
	log.PrintOrigins(true)
	fs := [2]log.Format{log.TerminalFormat(false), log.TerminalFormat(true)}
	for k := 0; k+4 <= len(site.Names); k += 4 {
		var ready atomic.Int32
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			rec := mkRecord(c.Rng("grow", k), log.LvlInfo, "m", []interface{}{"k", g})
			rec.Call = site.Names[k+g]()
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < 4 {
				}
				for n := 0; n < 8; n++ {
					line := string(fs[n%2].Format(rec))
					if want := fmt.Sprintf("|%+v]", rec.Call); !strings.Contains(line, want) {
						c.ViolateAsync("growing origin", "record from %+v printed as %q", rec.Call, line)
					}
				}
			}()
		}
		wg.Wait()
		c.Eval(fmt.Sprintf("grow %+v", site.Names[k]()))
	}
}

func TestC15(t *testing.T) {
	vk.Run(t, "C15", "random records formatted for terminals with and without color and origins, checked for exact header, message and losslessly parsed fields; distinct = different flags, kinds of fields and line shape", func(c *vk.C) {
		defer log.PrintOrigins(false)
		hdr := regexp.MustCompile(`^(?:\x1b\[(\d+)m)?([A-Z ]{5})(?:\x1b\[0m)?\[(\d\d-\d\d\|\d\d:\d\d:\d\d\.\d\d\d)(?:\|([^\]]*))?\]( *) `)
		growingOrigins(c)
		for i := 0; i < c.N(20000, 600000); i++ {
			r := c.Rng("term", i)
			color, origins := r.Intn(2) == 0, r.Intn(2) == 0
			log.PrintOrigins(origins)
			f := log.TerminalFormat(color)
			es, ctx := genCtx(r, true)
			reserved(r, es, ctx)
			msg := genString(r)
			if r.Intn(4) == 0 {
				msg = strings.Repeat("word ", r.Intn(12)) + msg
			}
			lvl := log.Lvl(r.Intn(6))
			rec := mkRecord(r, lvl, msg, ctx)
			rec.Call = sitesCalls[r.Intn(4)](r.Intn(3))
			var b []byte
			if !c.Never(fmt.Sprintf("terminal %q %s", msg, kindsOf(es)), func() { b = f.Format(rec) }) {
				continue
			}
			line := string(b)
			what := fmt.Sprintf("terminal(color=%v,origins=%v)", color, origins)
			c.Eval(fmt.Sprintf("%s %s %d", what, kindsOf(es), len(line)))
			c.Sample("%s %q", what, line)
			m := hdr.FindStringSubmatch(line)
			if m == nil {
				c.Violate(what+": header", "%s: header not recognised in %q", what, line)
				continue
			}
			if color && m[1] != fmt.Sprint(termColor[lvl]) || !color && m[1] != "" {
				c.Violate(what+": color", "%s: level %d colored %q in %q", what, lvl, m[1], line)
			}
			if m[2] != lvlAligned[lvl] {
				c.Violate(what+": level", "%s: level %d printed as %q in %q", what, lvl, m[2], line)
			}
			if m[3] != rec.Time.Format("01-02|15:04:05.000") {
				c.Violate(what+": time", "%s: time %v printed as %q", what, rec.Time, m[3])
			}
			loc := ""
			if origins {
				loc = fmt.Sprintf("%+v", rec.Call)
			}
			if m[4] != loc {
				c.Violate(what+": origin", "%s: record logged from %q printed with origin %q: %q", what, loc, m[4], line)
			}
			if !origins && m[5] != "" && strings.Trim(msg, " ") != "" && !strings.HasPrefix(msg, " ") {
				c.Violate(what+": header padding", "%s: unexpected padding in %q", what, line)
			}
			rest := line[len(m[0])-len(m[5])-1:]
			shown := msg
			if needsQuote(msg) {
				shown = strconv.Quote(msg)
			}
			// The header padding and the message's own leading blanks adjoin.
			k := strings.Index(rest, shown)
			if k < 0 || strings.Trim(rest[:k], " ") != "" {
				c.Violate(what+": message", "%s: message %q not printed in %q", what, msg, line)
				continue
			}
			k = len(rest) - len(strings.TrimLeft(rest, " ")) // leading blanks
			lead := len(shown) - len(strings.TrimLeft(shown, " "))
			rest = strings.TrimLeft(rest, " ")
			if k < lead+1 {
				c.Violate(what+": message", "%s: message %q lost blanks in %q", what, msg, line)
			}
			body := strings.TrimLeft(shown, " ")
			if !strings.HasPrefix(rest, body) {
				c.Violate(what+": message", "%s: message %q not printed in %q", what, msg, line)
				continue
			}
			rest = rest[len(body):]
			if !strings.HasSuffix(rest, "\n") {
				c.Violate(what+": newline", "%s: line not terminated: %q", what, line)
				continue
			}
			rest = strings.TrimSuffix(rest, "\n")
			if len(es) > 0 && body != "" && !strings.HasPrefix(rest, " ") {
				c.Violate(what+": separator", "%s: no blank between message and fields: %q", what, line)
			}
			if color {
				on := fmt.Sprintf("\x1b[%dm", termColor[lvl])
				if strings.Count(rest, on) != len(es) || strings.Count(rest, "\x1b[0m=") != len(es) || strings.Count(rest, "\x1b") != 2*len(es) {
					c.Violate(what+": color codes", "%s: unexpected escape sequences in %q", what, line)
				}
				rest = strings.ReplaceAll(strings.ReplaceAll(rest, on, ""), "\x1b[0m=", "=")
			}
			if x := rawByte(rest); x != "" {
				c.Violate(what+": raw byte", "%s: %s printed raw in %q", what, x, line)
			}
			got, err := parseLine(rest)
			if err != nil {
				c.Violate(what+": unparseable", "%s: %v in %q", what, err, line)
				continue
			}
			checkPairs(c, what, got, es, true, line)
		}
		// Toggling origins while formatting from several threads.
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			r := c.Rng("termg", g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := log.TerminalFormat(g%2 == 0)
				for i := 0; i < 300; i++ {
					if g == 0 {
						log.PrintOrigins(i%2 == 0)
					}
					rec := mkRecord(r, log.LvlInfo, "m", []interface{}{fmt.Sprint("k", r.Intn(5)), genString(r)})
					rec.Call = sitesCalls[r.Intn(4)](0)
					f.Format(rec)
				}
			}()
		}
		wg.Wait()
	})
}

// ------------------------------------------------------------------ C16

func jsonWant(e entry) (num bool, f float64, s string, bad bool) {
	switch v := e.v.(type) {
	case nil:
		return false, 0, "<nil>", false
	case float64:
		return true, v, "", math.IsNaN(v) || math.IsInf(v, 0)
	case float32:
		return true, float64(v), "", math.IsNaN(float64(v)) || math.IsInf(float64(v), 0)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return true, 0, fmt.Sprint(v), false
	case *big.Int:
		return false, 0, v.String(), false
	case bool:
		return false, 0, fmt.Sprint(v), false
	}
	return false, 0, e.text, false
}

// last returns the entries that win under their key.
func last(es []entry) map[string]entry {
	m := map[string]entry{}
	for _, e := range es {
		ks, _ := e.key.(string)
		m[ks] = e
	}
	return m
}

func jsonCase(c *vk.C, i int, ordered, pretty, sep bool) {
	r := c.Rng(fmt.Sprint("json", ordered, pretty, sep), i)
	var f log.Format
	what := ""
	if ordered {
		f = log.JSONFormatOrderedEx(pretty, sep)
		what = fmt.Sprintf("ordered JSON(pretty=%v,sep=%v)", pretty, sep)
	} else {
		f = log.JSONFormatEx(pretty, sep)
		what = fmt.Sprintf("JSON(pretty=%v,sep=%v)", pretty, sep)
	}
	if !ordered && !pretty && sep && r.Intn(2) == 0 {
		f = log.JSONFormat()
	}
	// A few records through one stream.
	var stream bytes.Buffer
	type rc struct {
		rec *log.Record
		es  []entry
	}
	var recs []rc
	for j := 0; j < 1+r.Intn(3); j++ {
		es, ctx := genCtx(r, r.Intn(4) == 0)
		rec := mkRecord(r, log.Lvl(r.Intn(6)), genString(r), ctx)
		if r.Intn(100) == 0 { // a time JSON cannot express
			rec.Time = time.Date(10000+r.Intn(1000), 2, 3, 4, 5, 6, 7, time.UTC)
		}
		if r.Intn(20) == 0 {
			rec.KeyNames = log.RecordKeyNames{Time: "T", Msg: "M", Lvl: "L", Ctx: "C"}
		}
		var b []byte
		if !c.Never(fmt.Sprintf("%s %s", what, kindsOf(es)), func() { b = f.Format(rec) }) {
			return
		}
		if sep != bytes.HasSuffix(b, []byte("\n")) || bytes.HasSuffix(b, []byte("\n\n")) {
			c.Violate(what+": separator", "%s: record printed as %q", what, b)
		}
		if !pretty && bytes.Count(bytes.TrimSuffix(b, []byte("\n")), []byte("\n")) > 0 {
			c.Violate(what+": one line", "%s: record spans lines: %q", what, b)
		}
		if pretty && len(recs) == 0 && bytes.Count(b, []byte("\n    \"")) < 1 {
			c.Violate(what+": not pretty", "%s: %q", what, b)
		}
		stream.Write(b)
		recs = append(recs, rc{rec, es})
	}
	raw := stream.String()
	dec := json.NewDecoder(&stream)
	dec.UseNumber()
	for _, x := range recs {
		c.Eval(fmt.Sprintf("%s %s", what, kindsOf(x.es)))
		var doc map[string]interface{}
		if err := dec.Decode(&doc); err != nil {
			c.Violate(what+": invalid", "%s: %v in %q", what, err, raw)
			return
		}
		bad := false
		badKey := false
		for _, e := range x.es {
			if _, _, _, b := jsonWant(e); b && !ordered {
				bad = true
			}
			if _, ok := e.key.(string); !ok {
				badKey = true
			}
		}
		if bad {
			// The last value under a key wins, so the bad value may be hidden.
			bad = false
			for _, e := range last(x.es) {
				if _, _, _, b := jsonWant(e); b {
					bad = true
				}
			}
		}
		if x.rec.Time.Year() > 9999 {
			_, over := last(x.es)[x.rec.KeyNames.Time]
			bad = bad || ordered || !over
		}
		if bad {
			if s, ok := doc[errorKey].(string); !ok || s == "" {
				c.Violate(what+": error not reported", "%s: unrepresentable record printed as %v", what, doc)
			}
			continue
		}
		if badKey {
			if s, ok := doc[errorKey].(string); !ok || s == "" {
				c.Violate(what+": bad key not reported", "%s: non-string key not flagged in %v", what, doc)
			}
		}
		over := map[string]bool{} // keys the context overrides
		if !ordered {
			for _, e := range x.es {
				ks, _ := e.key.(string)
				over[ks] = true
			}
		}
		kn := x.rec.KeyNames
		if !over[kn.Time] {
			ts, _ := doc[kn.Time].(string)
			if tm, err := time.Parse(time.RFC3339Nano, ts); err != nil || !tm.Equal(x.rec.Time) {
				c.Violate(what+": time", "%s: time %v printed as %q", what, x.rec.Time, ts)
			}
		}
		if !over[kn.Lvl] && doc[kn.Lvl] != lvlNames[x.rec.Lvl] {
			c.Violate(what+": level", "%s: level %v printed as %v", what, x.rec.Lvl, doc[kn.Lvl])
		}
		if !over[kn.Msg] && doc[kn.Msg] != validUTF8(x.rec.Msg) {
			c.Violate(what+": message", "%s: message %q printed as %q", what, x.rec.Msg, doc[kn.Msg])
		}
		if ordered {
			arr, ok := doc[kn.Ctx].([]interface{})
			if !ok || len(arr) != 2*len(x.es) {
				c.Violate(what+": context", "%s: %d pairs printed as %v", what, len(x.es), doc[kn.Ctx])
				continue
			}
			for j, e := range x.es {
				k, _ := arr[2*j].(string)
				v, _ := arr[2*j+1].(string)
				ks, _ := e.key.(string)
				if k != validUTF8(ks) {
					c.Violate(what+": key", "%s: key %q printed as %q", what, ks, k)
				}
				if strings.HasPrefix(v, `"`) {
					if u, err := strconv.Unquote(v); err == nil {
						v = u
					}
				}
				if v != e.term {
					c.Violate(what+": value "+e.kind, "%s: %s value %q printed as %q", what, e.kind, e.term, arr[2*j+1])
				}
			}
			continue
		}
		final := last(x.es)
		dup := map[string]int{}
		for k := range final {
			dup[validUTF8(k)]++
		}
		for ks, e := range final {
			if dup[validUTF8(ks)] > 1 {
				continue // two keys become equal in JSON
			}
			if ks == errorKey {
				continue
			}
			got, ok := doc[validUTF8(ks)]
			if !ok {
				c.Violate(what+": lost", "%s: key %q missing in %v", what, ks, doc)
				continue
			}
			num, fl, s, _ := jsonWant(e)
			if num {
				n, ok := got.(json.Number)
				if !ok {
					c.Violate(what+": number", "%s: %s %v printed as %v", what, e.kind, e.v, got)
					continue
				}
				if s != "" {
					if n.String() != s {
						c.Violate(what+": number", "%s: %s %v printed as %v", what, e.kind, e.v, n)
					}
				} else {
					bits := 64
					if e.kind == "float32" {
						bits = 32
					}
					p, err := strconv.ParseFloat(n.String(), bits)
					if err != nil || p != fl {
						c.Violate(what+": float", "%s: %s %v printed as %v", what, e.kind, e.v, n)
					}
				}
				continue
			}
			if got != validUTF8(s) {
				c.Violate(what+": value "+e.kind, "%s: %s value %q under %q printed as %q", what, e.kind, s, ks, got)
			}
		}
		for k := range doc {
			if _, ok := dup[k]; !ok && k != kn.Time && k != kn.Lvl && k != kn.Msg && !(badKey && (k == errorKey || k == "")) {
				c.Violate(what+": extra", "%s: unexpected key %q in %v", what, k, doc)
			}
		}
	}
	if dec.More() {
		c.Violate(what+": trailing", "%s: data after the last record in %q", what, raw)
	}
	c.Sample("%s %q", what, raw)
}

func TestC16(t *testing.T) {
	vk.Run(t, "C16", "streams of random records through every JSON variant, decoded by the standard library and compared field by field; distinct = variant and kinds of fields", func(c *vk.C) {
		for i := 0; i < c.N(3000, 60000); i++ {
			for v := 0; v < 8; v++ {
				jsonCase(c, i, v&1 != 0, v&2 != 0, v&4 != 0)
			}
		}
	})
}

// ------------------------------------------------------------------ C17

func TestC17(t *testing.T) {
	vk.Run(t, "C17", "integers of every width and magnitude (powers of ten, powers of two and neighbours, both signs, arbitrary size) compared with an independent digit grouper and read back; distinct = different number", func(c *vk.C) {
		f := log.LogfmtFormat()
		check := func(how, got string, n *big.Int) {
			c.Eval(how[:3] + n.String())
			c.Sample("%s: %s -> %s", how, n, got)
			if got != commas(n.String()) {
				c.Violate(how, "%s: %s printed as %q, want %q", how, n, got, commas(n.String()))
			}
			if back, ok := new(big.Int).SetString(strings.ReplaceAll(got, ",", ""), 10); !ok || back.Cmp(n) != 0 {
				c.Violate(how+" readback", "%s: %s printed as %q reads back as %v", how, n, got, back)
			}
		}
		through := func(v interface{}) string {
			rec := mkRecord(rand.New(rand.NewSource(1)), log.LvlInfo, "m", []interface{}{"n", v})
			line := string(f.Format(rec))
			return strings.TrimSuffix(line[strings.LastIndex(line, "n=")+2:], "\n")
		}
		i64 := func(n int64) {
			c.NoPanic(fmt.Sprint("FormatLogfmtInt64 ", n), func() { check("int64", log.FormatLogfmtInt64(n), big.NewInt(n)) })
			check("int64 field", through(n), big.NewInt(n))
			check("int field", through(int(n)), big.NewInt(n))
			check("int32 field", through(int32(n)), big.NewInt(int64(int32(n))))
		}
		u64 := func(n uint64) {
			b := new(big.Int).SetUint64(n)
			c.NoPanic(fmt.Sprint("FormatLogfmtUint64 ", n), func() { check("uint64", log.FormatLogfmtUint64(n), b) })
			check("uint64 field", through(n), b)
			check("uint field", through(uint(n)), b)
			check("uint32 field", through(uint32(n)), new(big.Int).SetUint64(uint64(uint32(n))))
		}
		bigs := func(n *big.Int) {
			keep := new(big.Int).Set(n)
			c.NoPanic(fmt.Sprint("big ", n), func() { check("big field", through(n), keep) })
			if n.Cmp(keep) != 0 {
				c.Violate("big changed", "formatting changed %v to %v", keep, n)
			}
		}
		p := uint64(1)
		for i := 0; i < 20; i++ {
			for d := -2; d <= 2; d++ {
				u64(p + uint64(d))
				i64(int64(p) + int64(d))
				i64(-int64(p) + int64(d))
			}
			p *= 10
		}
		for i := 0; i < 64; i++ {
			for d := -1; d <= 1; d++ {
				u64(uint64(1)<<uint(i) + uint64(d))
				i64(int64(1)<<uint(i) + int64(d))
				i64(-(int64(1) << uint(i)) + int64(d))
			}
		}
		ten := big.NewInt(1)
		for i := 0; i < 120; i++ {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(ten, big.NewInt(d))
				bigs(x)
				bigs(new(big.Int).Neg(x))
			}
			ten.Mul(ten, big.NewInt(10))
		}
		r := c.Rng("num", 0)
		for i := 0; i < c.N(20000, 500000); i++ {
			i64(int64(genBits(r, 64)))
			u64(genBits(r, 64))
			bigs(genBig(r))
		}
		for i := 0; i < c.N(400, 6000); i++ { // of any length
			x := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+vk.Tail(r, 4, 600, 30000))))
			if r.Intn(2) == 0 {
				x.Neg(x)
			}
			bigs(x)
		}
	})
}
