package common

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"flychain/common"
	"verifharness/vk"
)

func genDuration(r *rand.Rand) time.Duration {
	switch r.Intn(6) {
	case 0:
		u := []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 168 * time.Hour, 720 * time.Hour, 8640 * time.Hour}[r.Intn(10)]
		return u*time.Duration(r.Intn(14)) + time.Duration(r.Intn(3)-1)
	case 1:
		return time.Duration(r.Intn(20000))*time.Millisecond + time.Duration(r.Intn(2000))*time.Microsecond
	}
	return time.Duration(r.Int63() >> uint(r.Intn(63)))
}

var ageUnits = []struct {
	secs int64
	sym  string
}{{360 * 86400, "y"}, {30 * 86400, "mo"}, {7 * 86400, "w"}, {86400, "d"}, {3600, "h"}, {60, "m"}, {1, "s"}}

// ageRef writes whole seconds in the largest units, three at most.
func ageRef(d time.Duration) string {
	s := int64(d / time.Second)
	if s <= 0 {
		return "0"
	}
	out, n := "", 0
	for _, u := range ageUnits {
		if q := s / u.secs; q > 0 && n < 3 {
			out += strconv.FormatInt(q, 10) + u.sym
			s -= q * u.secs
			n++
		}
	}
	return out
}

func TestC29(t *testing.T) {
	vk.Run(t, "C29", "sizes over the whole positive range and at unit boundaries, durations of every magnitude, and ages under a virtual clock, each printed and the text read back by an independent parser; distinct = kind, unit and text shape", func(c *vk.C) {
		units := []string{"B", "KiB", "MiB", "GiB", "TiB"}
		re := regexp.MustCompile(`^(-?[0-9]+\.[0-9]{2}) ?([KMGT]iB|B)$`)
		c.Mixed(c.N(60000, 3000000), func(i int) {
			r := c.Rng("size", i)
			var v float64
			e := 0.0
			switch r.Intn(4) {
			case 0:
				e = float64(int64(1) << uint(10*r.Intn(5)))
				v = e + float64(r.Intn(5)-2)/4
			case 1:
				v = float64(r.Intn(3000000))
			default:
				v = math.Exp(r.Float64() * 36)
			}
			s, ts := common.StorageSize(v).String(), common.StorageSize(v).TerminalString()
			if strings.Replace(s, " ", "", 1) != ts || !strings.Contains(s, " ") || strings.Contains(ts, " ") {
				c.Violate("forms", "size %v prints as %q and %q", v, s, ts)
			}
			m := re.FindStringSubmatch(s)
			if m == nil {
				c.Violate("size text", "size %v prints as %q", v, s)
				return
			}
			num, _ := strconv.ParseFloat(m[1], 64)
			k := 0
			for units[k] != m[2] {
				k++
			}
			c.Eval(fmt.Sprint("size", k, len(m[1])))
			unit := math.Pow(1024, float64(k))
			if math.Abs(num*unit-v) > 0.00501*unit*(1+1e-12) {
				c.Violate("size value", "size %v prints as %q", v, s)
			}
			// The largest unit it exceeds; at the boundary either will do.
			if k > 0 && v < unit || k < 4 && v > unit*1024 {
				c.Violate("size unit", "size %v prints as %q", v, s)
			}
			c.Sample("%v: %s", v, s)

			d := genDuration(r)
			if r.Intn(4) == 0 {
				d = -d
			}
			g, std := common.PrettyDuration(d).String(), d.String()
			want := std
			if p := strings.IndexByte(std, '.'); p >= 0 {
				q := p + 1
				for q < len(std) && std[q] >= '0' && std[q] <= '9' {
					q++
				}
				if q-p-1 > 3 {
					want = std[:p+4] + std[q:]
				}
			}
			c.Eval(fmt.Sprint("duration", len(std), len(want), strings.IndexByte(std, '.')))
			if g != want {
				c.Violate("duration", "duration %s prints as %q, want %q", std, g, want)
			}
		})
		synctest.Test(t, func(t *testing.T) {
			c.Mixed(c.N(60000, 2000000), func(i int) {
				r := c.Rng("age", i)
				d := genDuration(r)
				if r.Intn(10) == 0 {
					d = -d
				}
				at := time.Now().Add(-d)
				if r.Intn(2) == 0 {
					at = at.Round(0)
				}
				if d > 280*365*24*time.Hour {
					return
				}
				g, want := common.PrettyAge(at).String(), ageRef(d)
				c.Eval("age" + regexp.MustCompile(`[0-9]+`).ReplaceAllString(want, "n") + fmt.Sprint(len(want)))
				if g != want {
					c.Violate("age", "an age of %v prints as %q, want %q", d, g, want)
				}
				c.Sample("age %v: %s", d, g)
				if r.Intn(50) == 0 {
					time.Sleep(time.Duration(r.Intn(5000)) * time.Millisecond)
				}
			})
		})
		parallel(c, func(r *rand.Rand) {
			d := genDuration(r)
			_ = common.StorageSize(float64(d)).String()
			if strings.HasPrefix(common.PrettyDuration(d).String(), ".") {
				c.ViolateAsync("parallel", "%v", d)
			}
		})
	})
}

// reportHere returns the line on which it calls Report.
func reportHere(args ...interface{}) int {
	_, _, line, _ := runtime.Caller(0)
	common.Report(args...)
	return line + 1
}

// capture collects what fn writes to the given standard stream.
func capture(c *vk.C, stream **os.File, fn func()) string {
	rd, wr, err := os.Pipe()
	if err != nil {
		c.HarnessError("%v", err)
	}
	old := *stream
	*stream = wr
	var buf bytes.Buffer
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); io.Copy(&buf, rd) }()
	fn()
	*stream = old
	wr.Close()
	wg.Wait()
	rd.Close()
	return buf.String()
}

func genJSON(r *rand.Rand, depth int) string {
	ws := func() string {
		return []string{"", "", " ", "\n", "\n\n", "\t", " \r\n"}[r.Intn(7)]
	}
	str := func() string {
		return []string{`"a"`, `"b c"`, `"é世界"`, `"\n\u0041"`, `""`, `"key"`, `"😀"`, "\"a\u2028b\u2029c\"", "\"\u0085\"", `"\u000a\u000d"`}[r.Intn(10)]
	}
	if depth == 0 || r.Intn(4) == 0 {
		return ws() + []string{"1", "-2.5e3", "true", "null", str(), "123456789", "false"}[r.Intn(7)] + ws()
	}
	var parts []string
	obj := r.Intn(2) == 0
	for k := r.Intn(5); k > 0; k-- {
		p := genJSON(r, depth-1)
		if obj {
			p = ws() + str() + ws() + ":" + p
		}
		parts = append(parts, p)
	}
	inner := strings.Join(parts, ",")
	if len(parts) == 0 {
		inner = ws()
	}
	if obj {
		return ws() + "{" + inner + "}" + ws()
	}
	return ws() + "[" + inner + "]" + ws()
}

func brief(s string) string {
	if len(s) > 1500 {
		return fmt.Sprintf("%s... (%d bytes)", s[:1500], len(s))
	}
	return s
}

func TestC30(t *testing.T) {
	vk.Run(t, "C30", "JSON documents over many lines, intact and damaged at random places, loaded from real files and compared with the standard decoder; paths of every kind; node names; problem reports captured; distinct = kind, verdict and line", func(c *vk.C) {
		dir := t.TempDir()
		c.Mixed(c.N(3000, 60000), func(i int) {
			r := c.Rng("json", i)
			file := filepath.Join(dir, fmt.Sprintf("f%d.json", i))
			defer os.Remove(file)
			doc := genJSON(r, 4)
			if i%60 == 3 { // long: many lines, or few of great length
				item := genJSON(r, 3)
				var b strings.Builder
				b.WriteString("[" + strings.Repeat("\n", r.Intn(3)*r.Intn(1000)))
				for max := int(math.Exp(math.Log(1e4) + r.Float64()*math.Log(200))); b.Len() < max; {
					if b.WriteString(item); r.Intn(3) == 0 {
						b.WriteString(strings.Repeat([]string{"\n", " ", "\t", "\r\n"}[r.Intn(4)], 1<<uint(r.Intn(12))))
					}
					b.WriteString(",")
					if r.Intn(40) == 0 {
						item = genJSON(r, 3)
					}
				}
				b.WriteString("0\n]")
				doc = b.String()
			}
			for k := r.Intn(3); k > 0 && len(doc) > 0; k-- {
				p := r.Intn(len(doc))
				switch r.Intn(4) {
				case 0:
					doc = doc[:p]
				case 1:
					doc = doc[:p] + doc[p+1:]
				case 2:
					doc = doc[:p] + []string{"x", "}", "]", ",", "\"", ":", "\n", "0", "\xff", "é", "\u2028", "\u0085", "\r", "\v", "\f", "\x1b", "\ufeff"}[r.Intn(17)] + doc[p:]
				case 3:
					doc = doc[:p] + []string{"x", "}", "]", ",", "\"", ":", "\n", "0", "\x00"}[r.Intn(9)] + doc[p+1:]
				}
			}
			switch r.Intn(25) {
			case 0: // what editors and shells put around a document
				doc = []string{"\ufeff", "\xff\xfe", "\x00", "#!\n", "//x\n", "\v", ")]}'\n"}[r.Intn(7)] + doc
			case 1:
				doc += []string{"\ufeff", "\x00", "\x1a", "//", "\n#", doc, ";", "\v"}[r.Intn(8)]
			}
			if err := os.WriteFile(file, []byte(doc), 0600); err != nil {
				c.HarnessError("%v", err)
			}
			typed := r.Intn(4) == 0
			mk := func() interface{} {
				if typed {
					return new(map[string]int)
				}
				return new(interface{})
			}
			want := mk()
			werr := json.Unmarshal([]byte(doc), want)
			got := mk()
			var err error
			if !c.NoPanic(fmt.Sprintf("loading %q", brief(doc)), func() { err = common.LoadJSON(file, got) }) {
				return
			}
			if (err == nil) != (werr == nil) {
				c.Violate("load verdict", "LoadJSON of %q: %v, want %v", brief(doc), err, werr)
				return
			}
			var syn *json.SyntaxError
			switch {
			case err == nil:
				if !reflect.DeepEqual(got, want) {
					c.Violate("load value", "LoadJSON of %q gives %.2000v", brief(doc), fmt.Sprint(got))
				}
				c.Eval(fmt.Sprint("ok", strings.Count(doc, "\n"), len(doc)))
			case errors.As(werr, &syn):
				off := int(syn.Offset)
				line := 1 + strings.Count(doc[:off], "\n")
				alt := line
				if off > 0 && doc[off-1] == '\n' {
					alt = line - 1 // the newline itself is the offending character
				}
				pre, suf := "JSON syntax error at "+file+":", ": "+werr.Error()
				s := err.Error()
				n := -1
				if strings.HasPrefix(s, pre) && strings.HasSuffix(s, suf) {
					n, _ = strconv.Atoi(s[len(pre) : len(s)-len(suf)])
				}
				c.Eval(fmt.Sprint("syntax", line, off))
				if n != line && n != alt {
					c.Violate("load line", "LoadJSON of %q reports %q; the error %q is at offset %d, line %d", brief(doc), s, werr, off, line)
				}
				c.Sample("%q: %s", brief(doc), strings.TrimPrefix(s, "JSON syntax error at "+dir))
			default:
				c.Eval("type")
				if s := err.Error(); !strings.Contains(s, file) || !strings.Contains(s, werr.Error()) {
					c.Violate("load type error", "LoadJSON of %q reports %q", brief(doc), s)
				}
			}

			// Paths.
			name := []string{"a", "b.json", "sub/x", "sub", "..", ".", "é ü", "a/../b", "/abs/x", "/", "", "//x", "~", "f.json", "sub/../f.json", "link", "dangling"}[r.Intn(17)]
			base := []string{dir, "rel/dir", "", "/", dir + "/", "."}[r.Intn(6)]
			g := common.AbsolutePath(base, name)
			w := name
			if !strings.HasPrefix(name, "/") {
				w = filepath.Join(base, name)
			}
			c.Eval("path" + base + "|" + name)
			if g != w {
				c.Violate("AbsolutePath", "AbsolutePath(%q, %q) = %q", base, name, g)
			}
		})
		missing := filepath.Join(dir, "no", "such")
		var v interface{} = "old"
		if err := common.LoadJSON(missing, &v); !errors.Is(err, os.ErrNotExist) || v != "old" {
			c.Violate("load missing", "LoadJSON of a missing file: %v, %v", err, v)
		}
		if err := common.LoadJSON(dir, &v); err == nil || v != "old" {
			c.Violate("load dir", "LoadJSON of a directory: %v, %v", err, v)
		}
		os.Mkdir(filepath.Join(dir, "sub"), 0700)
		os.WriteFile(filepath.Join(dir, "f.json"), []byte("1"), 0600)
		os.Symlink("f.json", filepath.Join(dir, "link"))
		os.Symlink("nowhere", filepath.Join(dir, "dangling"))
		os.WriteFile(filepath.Join(dir, "empty"), nil, 0)
		for p, w := range map[string]bool{"f.json": true, "sub": true, "link": true, "empty": true, "dangling": false, "absent": false, "sub/absent": false, "absent/deep": false, "": true} {
			c.Eval("exist" + p)
			if g := common.FileExist(dir + "/" + p); g != w {
				c.Violate("FileExist", "FileExist(%q) = %v", p, g)
			}
		}
		os.Remove(filepath.Join(dir, "f.json"))
		if common.FileExist(filepath.Join(dir, "f.json")) || common.FileExist(filepath.Join(dir, "link")) {
			c.Violate("FileExist removed", "a removed file still exists")
		}
		for _, nv := range [][2]string{{"Geth", "1.2.3"}, {"", ""}, {"a/b", "%s"}, {"%d", "1-unstable"}} {
			if g, w := common.MakeName(nv[0], nv[1]), nv[0]+"/v"+nv[1]+"/"+runtime.GOOS+"/"+runtime.Version(); g != w {
				c.Violate("MakeName", "MakeName(%q, %q) = %q", nv[0], nv[1], g)
			}
		}
		// Reports reach standard error and name the caller.
		for i := 0; i < 20; i++ {
			r := c.Rng("report", i)
			arg := fmt.Sprint("detail ", r.Intn(1000), " %s")
			line := 0
			out := capture(c, &os.Stderr, func() { line = reportHere(arg, i) })
			c.Eval("report")
			if !strings.Contains(out, fmt.Sprintf("%s %d\n", arg, i)) || !strings.Contains(out, fmt.Sprintf("misc_test.go:%d\n", line)) || !strings.Contains(out, "reportHere") {
				c.Violate("report", "Report(%q, %d) from line %d wrote %q", arg, i, line, out)
			}
			msg := strings.Repeat("w", r.Intn(30)) + "!"
			if r.Intn(2) == 0 {
				msg = []string{"", " a  b ", "  ", "%d of %s", "#", "tab\tend ", "a # b", "100%"}[r.Intn(8)]
			}
			out = capture(c, &os.Stdout, func() { common.PrintDeprecationWarning(msg) })
			var box []string
			for _, l := range strings.Split(out, "\n") {
				if l != "" {
					box = append(box, l)
				}
			}
			ok := len(box) == 5 && box[2] == "# "+msg+" #"
			for _, l := range box {
				ok = ok && len(l) == len(msg)+4 && l[0] == '#' && l[len(l)-1] == '#'
			}
			if !ok {
				c.Violate("warning box", "warning %q printed as %q", msg, out)
			}
		}
	})
}
