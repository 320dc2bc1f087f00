package compiler

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"

	"flychain/common/compiler"
	"verifharness/vk"
)

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func genDoc(r *rand.Rand, depth int) string {
	switch k := r.Intn(7); {
	case depth == 0 || k < 2:
		return pick(r, `1`, `true`, `null`, `"text"`, `""`, `-2.5`, `"q\"uote\n"`, `"é"`, `[]`, `{}`)
	case k < 4:
		s := ""
		for n := r.Intn(4); n > 0; n-- {
			if s != "" {
				s += ","
			}
			s += genDoc(r, depth-1)
		}
		return "[" + s + "]"
	}
	s := ""
	for n := r.Intn(4); n > 0; n-- {
		if s != "" {
			s += ","
		}
		s += fmt.Sprintf(`"k%d":%s`, n, genDoc(r, depth-1))
	}
	return "{" + s + "}"
}

func parseDoc(s string) interface{} {
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	return v
}

func quote(s string) string { b, _ := json.Marshal(s); return string(b) }

func genHash(r *rand.Rand) (string, map[string]string) {
	switch r.Intn(4) {
	case 0:
		return "", nil
	case 1:
		return "{}", map[string]string{}
	}
	m := map[string]string{}
	for n := 1 + vk.Tail(r, 40, 4, 200); n > 0; n-- {
		m[fmt.Sprintf("f%d(uint%d)", n, 8*r.Intn(33))] = fmt.Sprintf("%08x", r.Uint32())
	}
	b, _ := json.Marshal(m)
	return string(b), m
}

func scribble(g *compiler.Contract) {
	for k := range g.Hashes {
		g.Hashes[k] = "changed"
	}
	if g.Hashes != nil {
		g.Hashes["new"] = "added"
	}
	for _, d := range []interface{}{g.Info.AbiDefinition, g.Info.UserDoc, g.Info.DeveloperDoc} {
		switch d := d.(type) {
		case map[string]interface{}:
			d["new"] = "added"
		case []interface{}:
			for i := range d {
				d[i] = "changed"
			}
		}
	}
	g.Code, g.Info.Source = "changed", "changed"
}

// kept are earlier results, looked at again after many further calls.
type kept struct{ got, want map[string]*compiler.Contract }

var (
	keptMu  sync.Mutex
	keptAll [128]kept
)

func (k kept) check(violate func(sig, f string, args ...interface{})) {
	for name, w := range k.want {
		if g := k.got[name]; !reflect.DeepEqual(g, w) {
			violate("result changed", "contract %s was %+v and is %+v after further calls", name, w, g)
		}
	}
}

type parser func([]byte, string, string, string, string) (map[string]*compiler.Contract, error)

func TestC37(t *testing.T) {
	vk.Run(t, "C37", "compiler outputs of both generations with any number of contracts, absent and extra fields and damaged parts parsed and compared field by field with the document they were built from; distinct = form, fields present, verdict", func(c *vk.C) {
		one := func(r *rand.Rand, big bool, violate func(sig, f string, args ...interface{})) {
			v8 := r.Intn(2) == 0
			args := [4]string{pick(r, "", "contract A {}", "src é"), pick(r, "", "0.5.0"), pick(r, "", "0.8.17+commit"), pick(r, "", "--optimize")}
			want := map[string]*compiler.Contract{}
			cons, shape := "", fmt.Sprint(v8)
			broken := ""
			isArr := false // some embedded document is not a string: new format only
			total := vk.Tail(r, 60, 5, 400)
			if big { // a whole code base at once
				total = 300 + r.Intn(1200)
			}
			for n := total; n > 0; n-- {
				name := fmt.Sprintf("dir/f%d.sol:C%d", r.Intn(3), n)
				if r.Intn(4) == 0 { // every name distinct by its end
					name = pick(r, "<stdin>:", "", "a:b.sol:", "/abs/x.sol:", "./x.sol:", "@oz/c/T.sol:", "sömé.vy:", "C:\\x.sol:", "<stdin>", "x.sol: ", "contracts/") + fmt.Sprintf("C%d", n)
				}
				var ct compiler.Contract
				f := ""
				field := func(k, v string) {
					if f != "" {
						f += ","
					}
					f += quote(k) + ":" + v
				}
				hx := func() string {
					if r.Intn(200+5*total) == 0 { // the size of a real contract, or beyond
						b := make([]byte, vk.Tail(r, 2, 1000, 50000))
						if r.Intn(3) == 0 {
							b = make([]byte, 20000+r.Intn(150000))
						}
						r.Read(b)
						return fmt.Sprintf("%x", b)
					}
					s := fmt.Sprintf("%x", r.Uint64()>>uint(r.Intn(64)))
					if r.Intn(12) == 0 { // unlinked libraries, as either generation marks them; other text
						s += pick(r, "__$"+fmt.Sprintf("%034x", r.Uint64())+"$__", "__dir/f.sol:Lib_____________________________", "ABCDEF", "0x60", " ", "é", "\n") + s
					}
					return s
				}
				ct.Code, ct.RuntimeCode = "0x", "0x"
				if r.Intn(6) > 0 {
					s := hx()
					field("bin", quote(s))
					ct.Code += s
				}
				if r.Intn(6) > 0 {
					s := hx()
					field("bin-runtime", quote(s))
					ct.RuntimeCode += s
				}
				ct.Info.SrcMap = ""
				if r.Intn(4) > 0 {
					s := "1:" + hx()
					field("srcmap", quote(s))
					ct.Info.SrcMap = s
				}
				if r.Intn(4) > 0 {
					s := "2:" + hx()
					field("srcmap-runtime", quote(s))
					ct.Info.SrcMapRuntime = s
				}
				if r.Intn(4) > 0 {
					s := pick(r, `{"compiler":{"version":"1"}}`, "meta", "")
					field("metadata", quote(s))
					ct.Info.Metadata = s
				}
				if h, m := genHash(r); h != "" {
					field("hashes", h)
					ct.Hashes = m
				}
				doc := func(k string, dst *interface{}) {
					d := genDoc(r, 3)
					if v8 {
						if r.Intn(6) == 0 {
							return // absent: nil
						}
						field(k, d)
						*dst = parseDoc(d)
						if v := *dst; v != nil {
							if _, isS := v.(string); !isS {
								isArr = true
							}
						}
						return
					}
					*dst = parseDoc(d)
					switch r.Intn(40 + 6*total) {
					case 0:
						d = pick(r, "{", "[1,", "x", " ", `"`, "[]]")
						broken = k
					case 1:
						broken = k
						return // absent: not a document
					}
					field(k, quote(d))
				}
				ct.Info.AbiDefinition = nil
				doc("abi", &ct.Info.AbiDefinition)
				doc("userdoc", &ct.Info.UserDoc)
				doc("devdoc", &ct.Info.DeveloperDoc)
				if r.Intn(4) == 0 {
					field("opcodes", `"PUSH1"`)
				}
				ct.Info.Source, ct.Info.Language, ct.Info.LanguageVersion, ct.Info.CompilerVersion, ct.Info.CompilerOptions = args[0], "Solidity", args[1], args[2], args[3]
				if _, dup := want[name]; dup {
					continue
				}
				want[name] = &ct
				if cons != "" {
					cons += ","
				}
				cons += quote(name) + ":{" + f + "}"
				shape += fmt.Sprint(len(f) / 20)
			}
			in := `{"contracts":{` + cons + `},"version":"` + pick(r, "0.4.1", "0.8.1+commit.abc") + `"}`
			if r.Intn(10) == 0 {
				in = `{` + pick(r, `"contracts":null,`, "") + `"sourceList":["a"],"version":"x"}`
				want = map[string]*compiler.Contract{}
				broken, isArr = "", false
			}
			// Old documents in the old format; new ones by both entries.
			parsers := map[string]parser{"ParseCombinedJSON": compiler.ParseCombinedJSON}
			if v8 {
				parsers["ParseCombinedJSONV8"] = compiler.ParseCombinedJSONV8
				if !isArr {
					delete(parsers, "ParseCombinedJSON")
				}
				broken = ""
			}
			if r.Intn(8) == 0 {
				parsers = map[string]parser{"ParseCombinedJSON": compiler.ParseCombinedJSON, "ParseCombinedJSONV8": compiler.ParseCombinedJSONV8}
				in = pick(r, "", "{", in[:r.Intn(len(in))], "["+in+"]", `{"contracts":[]}`, `{"contracts":{"a":7}}`, `{"contracts":{"a":{"bin":7}}}`, `{"contracts":{"a":{"hashes":[]}}}`, in+"x", `{"contracts":{"a":{"bin":"00","abi":[],"metadata":{}}}}`)
				broken = "all"
			}
			for what, parse := range parsers {
				var got map[string]*compiler.Contract
				var err error
				buf := []byte(in)
				if v, st := vk.Panics(func() { got, err = parse(buf, args[0], args[1], args[2], args[3]) }); v != nil {
					violate("panic", "%s of %s panicked: %v\n%s", what, in, v, st)
					continue
				}
				if string(buf) != in {
					violate("input changed", "%s changed its input", what)
				}
				c.Eval(what + shape + broken)
				c.Sample("%s broken=%q", in, broken)
				if broken != "" {
					if err == nil || got != nil {
						violate(what+" accepts "+broken, "%s of %s (broken: %s) = %v, %v", what, in, broken, got, err)
					}
					continue
				}
				if err != nil || len(got) != len(want) {
					violate(what, "%s of %s: %d contracts, %v; want %d", what, in, len(got), err, len(want))
					continue
				}
				for name, w := range want {
					g := got[name]
					if g == nil || !reflect.DeepEqual(g, w) {
						violate(what+" contract", "%s of %s: %s is %+v, want %+v", what, in, name, g, w)
						continue
					}
					// A contract survives its own JSON form.
					j, err := json.Marshal(g)
					var back compiler.Contract
					if err == nil {
						err = json.Unmarshal(j, &back)
					}
					if err != nil || !reflect.DeepEqual(&back, g) {
						violate("contract json", "%+v marshals to %s and back to %+v, %v", g, j, back, err)
					}
				}
				keptMu.Lock()
				k := r.Intn(len(keptAll))
				old := keptAll[k]
				keptAll[k] = kept{got, want}
				keptMu.Unlock()
				old.check(violate)
				// The result is the caller's: changing one contract of one
				// result shows nowhere else.
				if len(want) > 0 && r.Intn(4) == 0 {
					own, err := parse(buf, args[0], args[1], args[2], args[3])
					if err != nil || len(own) != len(want) {
						violate(what+" again", "%s of %s, parsed again: %v, %v", what, in, own, err)
						continue
					}
					first := true
					for name, g := range own {
						if first {
							first = false
							scribble(g)
						} else if !reflect.DeepEqual(g, want[name]) {
							violate(what+" shared", "%s of %s: changing one contract changed %s to %+v", what, in, name, g)
						}
					}
					kept{got, want}.check(violate)
					// The same output again, with other arguments.
					other, err := parse(buf, args[1]+"1", args[2]+"2", args[3]+"3", args[0]+"4")
					if err != nil || len(other) != len(want) {
						violate(what+" again", "%s of %s, parsed with other arguments: %v, %v", what, in, other, err)
						continue
					}
					for name, w := range want {
						x := *w
						x.Info.Source, x.Info.LanguageVersion, x.Info.CompilerVersion, x.Info.CompilerOptions = args[1]+"1", args[2]+"2", args[3]+"3", args[0]+"4"
						if g := other[name]; !reflect.DeepEqual(g, &x) {
							violate(what+" arguments", "%s of %s, parsed with other arguments: %s is %+v, want %+v", what, in, name, g, &x)
						}
					}
				}
			}
		}
		c.Mixed(c.N(6000, 400000), func(i int) {
			one(c.Rng("solc", i), i%600 == 5, c.Violate)
		})
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 100; i++ {
					one(c.Rng("par", g*1000+i), false, c.ViolateAsync)
				}
			}()
		}
		wg.Wait()
		for _, k := range keptAll {
			k.check(c.Violate)
		}
	})
}
