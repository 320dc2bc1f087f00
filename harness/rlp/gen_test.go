package rlp

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"verifharness/vk"
)

// rnd builds random struct types out of what the generator supports.
type rnd struct {
	*rand.Rand
	types []string // names of generated struct types so far
}

func (r *rnd) pick(ss ...string) string { return ss[r.Intn(len(ss))] }

// ft is a field type with what the surroundings need to know about it.
type ft struct {
	s          string
	comparable bool // may be optional
	ptr        bool
	noNil      bool // nil tag not usable
	cust       bool // holds a *Cust by value
	named      bool // pointer to it cannot be decoded (byte slice with a name)
	empty      bool // struct without visible fields
}

var scalars = []string{"bool", "uint8", "byte", "uint16", "uint32", "uint64", "string"}

func (r *rnd) arr() string {
	return fmt.Sprintf("[%d]byte", []int{0, 1, 2, 3, 20, 32, 56, 60}[r.Intn(8)])
}

func (r *rnd) typ(depth int) ft {
	switch k := r.Intn(20); {
	case k < 7:
		return ft{s: r.pick(scalars...), comparable: true}
	case k == 7:
		return ft{s: "[]byte", comparable: true}
	case k == 8:
		return ft{s: r.arr(), comparable: true}
	case k == 9:
		return ft{s: r.pick("NArr", "NArr1", "other.Arr"), comparable: true}
	case k == 10:
		return ft{s: r.pick("NBytes", "other.Bytes", "rlp.RawValue"), comparable: true, named: true}
	case k == 11:
		if r.Intn(2) == 0 {
			return ft{s: "*big.Int", comparable: true, ptr: true, noNil: true}
		}
		return ft{s: "big.Int"}
	case k == 12:
		return ft{s: "*Cust", ptr: true, noNil: true, cust: true}
	case k == 13:
		return ft{s: r.pick("other.Pair", "Flat", "struct{ A string; b int; C *uint16 }"), comparable: true}
	case k == 14:
		return ft{s: r.pick("other.List", "Deep", "struct{ A []uint8; B []uint16 }")}
	case k == 15 && len(r.types) > 0:
		return ft{s: r.types[r.Intn(len(r.types))], cust: true}
	case k == 16 && depth > 0:
		body, cust, empty := r.body(depth-1, 3, false)
		return ft{s: "struct{\n" + body + "}", cust: cust, empty: empty}
	case k < 19 && depth > 0:
		for {
			e := r.typ(depth - 1)
			if e.ptr || e.named {
				continue
			}
			return ft{s: "*" + e.s, comparable: true, ptr: true}
		}
	case depth > 0:
		for {
			e := r.typ(depth - 1)
			// A slice of bytes is a string; named ones are not supported.
			if e.s == "uint8" || e.s == "byte" || e.empty {
				continue
			}
			return ft{s: "[]" + e.s, comparable: true}
		}
	}
	return ft{s: "uint64", comparable: true}
}

var fieldNo int

func (r *rnd) body(depth, max int, top bool) (s string, cust, empty bool) {
	n := r.Intn(max + 1)
	if top && n == 0 && r.Intn(8) > 0 {
		n = 1 + r.Intn(max)
	}
	optional := false
	visible := 0
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		f := r.typ(depth)
		name := fmt.Sprintf("F%d", i)
		switch r.Intn(14) {
		case 0:
			// Ignored or unexported: may be of any type and anywhere.
			any := r.pick("int", "map[string]int", "chan bool", "func()", "interface{}", "float64", "error", f.s)
			if optional && any != f.s {
				any = "int"
			}
			if r.Intn(2) == 0 {
				s += fmt.Sprintf("f%d %s\n", i, r.pick("int", "uint64", "string", "*big.Int"))
			} else {
				s += fmt.Sprintf("%s %s `rlp:%q`\n", name, any, r.pick("-", "-", " - ", "-,optional"))
			}
			continue
		case 1:
			// Embedded struct.
			emb := r.pick("Flat", "Deep", "*Flat", "*Deep", "other.Pair", "*other.Pair")
			base := strings.TrimPrefix(emb, "*")
			if i := strings.IndexByte(base, '.'); i >= 0 {
				base = base[i+1:]
			}
			if !seen[base] && !optional {
				seen[base] = true
				tag := ""
				if emb[0] == '*' && r.Intn(2) == 0 {
					tag = "`rlp:\"" + r.pick("nil", "nilString", "nilList") + "\"`"
				}
				s += emb + " " + tag + "\n"
				visible++
				continue
			}
		}
		var tags []string
		if !optional && f.comparable && !f.cust && i > 0 && r.Intn(6) == 0 {
			optional = true
		}
		if optional {
			for !f.comparable || f.cust {
				f = r.typ(depth)
			}
			tags = append(tags, "optional")
		}
		if f.ptr && !f.noNil && r.Intn(2) == 0 {
			tags = append(tags, r.pick("nil", "nilString", "nilList"))
			if r.Intn(2) == 0 && len(tags) == 2 {
				tags[0], tags[1] = tags[1], tags[0]
			}
		}
		if r.Intn(12) == 0 {
			tags = append(tags, "")
		}
		tag := ""
		if len(tags) > 0 {
			tag = "`rlp:\"" + strings.Join(tags, r.pick(",", ", ")) + "\"`"
			if r.Intn(6) == 0 {
				tag = "`json:\"x\" rlp:\"" + strings.Join(tags, ",") + "\"`"
			}
		}
		cust = cust || f.cust
		visible++
		s += name + " " + f.s + " " + tag + "\n"
	}
	return s, cust, visible == 0
}

const typesHead = `package t

import (
	"math/big"

	"rlp"
	mybig "rlp/my/big"
	"rlp/o-ther"
	sub "rlp/sub/t"
)

var _ big.Int
var _ mybig.Int
var _ sub.Flat
var _ rlp.RawValue
var _ other.Pair

// Types that share their names with special ones.
type RawValue []byte
type Int struct {
	A uint8
	B []string
}

type NArr [20]byte
type NArr1 [1]byte
type NBytes []byte
type NList []uint64
type T2Like struct{ A, B uint64 }

type Flat struct {
	A uint32
	B string
	h int
}

// Other names for types.
type (
	AU    = uint64
	ABs   = []byte
	AFlat = Flat
	APtr  = *AFlat
	AList = []AFlat
	ABig  = big.Int
	ACust = Cust
	AArr  = NArr
	AAnon = struct {
		X AU
		Y *ABs
	}
	AOther = other.Pair
	AAU    = AU
	Box[T any] struct {
		V T
		W []T
		P *T ` + "`rlp:\"nil\"`" + `
	}
	ABox = Box[AArr]
)

type Deep struct {
	L []uint64
	F *Flat ` + "`rlp:\"nil\"`" + `
	S string
	O uint16 ` + "`rlp:\"optional\"`" + `
	P *string ` + "`rlp:\"optional\"`" + `
}
`

// Fixed types: every feature once, whatever the random ones hit.
var fixed = []string{
	"",
	"A bool\nB uint8\nC uint16\nD uint32\nE uint64\nF string\nG []byte\nH [4]byte\nI NArr\nJ NBytes",
	"A *big.Int\nB big.Int\nC []*big.Int\nD []big.Int\nE *[]big.Int",
	"A rlp.RawValue\nB []rlp.RawValue\nC other.Bytes\nD []NBytes",
	"A *Cust\nB []*Cust\nC uint8",
	"A *uint8 `rlp:\"nil\"`\nB *uint8 `rlp:\"nilList\"`\nC *string `rlp:\"nil\"`\nD *[3]byte `rlp:\"nil\"`\nE *[]byte `rlp:\"nil\"`\nF *Flat `rlp:\"nil\"`\nG *Flat `rlp:\"nilString\"`\nH *[]uint16 `rlp:\"nil\"`\nI *bool `rlp:\"nil\"`\nJ *NArr `rlp:\"nil\"`",
	"A *uint8\nB *string\nC *[3]byte\nD *[]byte\nE *Flat\nF *[]uint16\nG *bool\nH *other.Arr\nI *other.Pair",
	"A uint8\nB bool `rlp:\"optional\"`\nC uint64 `rlp:\"optional\"`\nD string `rlp:\"optional\"`\nE []uint16 `rlp:\"optional\"`\nF [3]byte `rlp:\"optional\"`\nG Flat `rlp:\"optional\"`\nH struct{ A string } `rlp:\"optional\"`\nI *uint64 `rlp:\"optional\"`\nJ *big.Int `rlp:\"optional\"`\nK []byte `rlp:\"optional\"`\nL other.Pair `rlp:\"optional\"`",
	"A *Flat `rlp:\"optional,nil\"`\nB *uint8 `rlp:\"nilList,optional\"`\nC *string `rlp:\"optional,nilString\"`",
	"A [][]uint64\nB []struct{ A [][]byte; B *Flat }\nC [][]*Flat\nD []Deep\nE [][4]byte\nF []string\nG []bool",
	"A struct{ B struct{ C uint8; D struct{ E string } } }\nF *struct{ G *struct{ H []uint32 } }",
	"a int\nA chan int `rlp:\"-\"`\nB uint8\nb string\nC map[string]bool `rlp:\"-\"`",
	"Flat\n*Deep\nother.Pair\nX uint64",
	"A AU\nB ABs\nC AFlat\nD APtr\nE AList\nF *ABig\nG ABig\nH *ACust\nI AArr\nJ AAnon\nK AOther\nL AAU\nM []AAU\nN *AU\nO []APtr\nP []ABs",
	"A *AFlat `rlp:\"nil\"`\nB APtr `rlp:\"nil\"`\nC *AArr `rlp:\"nil\"`\nD *AAU `rlp:\"nilList\"`\nE AU `rlp:\"optional\"`\nF AArr `rlp:\"optional\"`\nG AFlat `rlp:\"optional\"`\nH APtr `rlp:\"optional\"`\nI AList `rlp:\"optional\"`\nJ *ABig `rlp:\"optional\"`",
	"A Box[uint16]\nB *Box[Flat]\nC []Box[[]byte]\nD Box[Box[string]]\nE ABox\nF *ABox",
	"A RawValue\nB []RawValue\nC Int\nD *Int\nE []Int\nF *Int `rlp:\"nil\"`\nG other.RawValue\nH *other.RawValue\nI []other.RawValue",
	"A mybig.Int\nB *mybig.Int\nC []mybig.Int\nD []*mybig.Int\nE *mybig.Int `rlp:\"nil\"`\nF mybig.Int `rlp:\"optional\"`",
	"A *sub.Flat\nB *Flat\nC sub.Flat\nD *Flat `rlp:\"nil\"`\nE *sub.Flat `rlp:\"nil\"`\nF []sub.Flat\nG []*sub.Flat\nH []Flat\nI sub.Flat `rlp:\"optional\"`\nJ Flat `rlp:\"optional\"`",
	"A *sub.T1\nB sub.T1\nC []sub.T1\nD *sub.T1 `rlp:\"nil\"`\nE *T2Like\nF sub.T1 `rlp:\"optional\"`",
	"A other.Outer\nB *other.Outer\nC []other.Outer\nD *other.Outer `rlp:\"nil\"`",
	"A uint8\nB uint16 `rlp:\"optional\"`\nC *Cust `rlp:\"optional\"`",
	"A Flat\nB Flat\nC *Flat\nD []Flat\nE struct{ F Flat; G Flat }\nH Deep\nI Deep\nJ other.Pair\nK []other.Pair\nL Int\nM Int",
	"A NBytes `rlp:\"optional\"`\nB other.Bytes `rlp:\"optional\"`\nC RawValue `rlp:\"optional\"`\nD []NBytes `rlp:\"optional\"`\nE NList `rlp:\"optional\"`\nF NArr `rlp:\"optional\"`",
	"A []big.Int\nB struct{ A big.Int; B *big.Int }\nC []struct{ A big.Int; B []*big.Int }\nD *struct{ E *big.Int; F big.Int }\nG *[]big.Int",
	"A struct{ Flat; X uint8; other.Pair }\nB []struct{ Y string; *Flat }\nC *struct{ *other.Pair; Flat }",
}

// Unsupported types must be refused.
var refused = []struct{ name, decl string }{
	{"Int", "type Int struct{ A int }"},
	{"Int8", "type Int8 struct{ A int8 }"},
	{"Int64P", "type Int64P struct{ A *int64 }"},
	{"Uint", "type Uint struct{ A uint }"},
	{"Uintptr", "type Uintptr struct{ A uintptr }"},
	{"Float", "type Float struct{ A float64 }"},
	{"Complex", "type Complex struct{ A complex64 }"},
	{"Map", "type Map struct{ A map[string]string }"},
	{"Chan", "type Chan struct{ A chan uint8 }"},
	{"Func", "type Func struct{ A func() }"},
	{"Iface", "type Iface struct{ A interface{} }"},
	{"Err", "type Err struct{ A error }"},
	{"Arr", "type Arr struct{ A [3]uint64 }"},
	{"SliceInt", "type SliceInt struct{ B string; A []int }"},
	{"Nested", "type Nested struct{ A []struct{ B *struct{ C map[uint8]uint8 } } }"},
	{"Tail", "type Tail struct{ A []uint64 `rlp:\"tail\"` }"},
	{"TailMid", "type TailMid struct{ A []uint64 `rlp:\"tail\"`; B uint8 }"},
	{"TailDeep", "type TailDeep struct{ X []struct{ A uint8; B []uint64 `rlp:\"tail\"` } }"},
	{"TailNamed", "type TailNamed struct{ A uint8; X *tailIn }; type tailIn struct{ A uint8; B []string `rlp:\"tail\"` }"},
	{"TailBytes", "type TailBytes struct{ A uint8; T [][]byte `rlp:\"tail\"` }"},
	{"Unknown", "type Unknown struct{ A uint8 `rlp:\"nope\"` }"},
	{"NilVal", "type NilVal struct{ A uint8 `rlp:\"nil\"` }"},
	{"NilSlice", "type NilSlice struct{ A []uint8 `rlp:\"nilString\"` }"},
	{"NilList", "type NilList struct{ A string `rlp:\"nilList\"` }"},
	{"OptMid", "type OptMid struct{ A uint8 `rlp:\"optional\"`; B uint8 }"},
	{"OptDeep", "type OptDeep struct{ X []struct{ A uint8 `rlp:\"optional\"`; B uint8 } }"},
	{"IgnBad", "type IgnBad struct{ A uint8 `rlp:\"-,nope\"` }"},
	{"EncP", "type EncP struct{ A *t.EncOnly }"},
	{"DecP", "type DecP struct{ A *t.DecOnly }"},
	{"DecV", "type DecV struct{ A t.ValDec }"},
	{"EncS", "type EncS struct{ A []*t.EncOnly }"},
	{"NotStruct", "type NotStruct []uint8"},
	{"notType", "var notType struct{ A uint8 }"},
	{"Rec", "type Rec struct{ A uint8; Next *Rec }"},
	{"RecSlice", "type RecSlice struct{ A []RecSlice }"},
	{"RecTwo", "type RecTwo struct{ A *recOther }; type recOther struct{ B []*RecTwo }"},
	{"RecDeep", "type RecDeep struct{ A uint8; B struct{ C []struct { D *RecDeep } } }"},
	{"RecList", "type RecList struct{ A recList }; type recList []recList"},
	{"RecBox", "type RecBox struct{ A recBox[uint8] }; type recBox[T any] struct{ V T; N *recBox[T] }"},
	{"AliasAnon", "type AliasAnon = struct{ A uint8 }"},
	{"AliasBasic", "type AliasBasic = uint64"},
	{"AliasInt", "type AliasInt struct{ A aInt }; type aInt = int"},
	{"AliasMap", "type AliasMap struct{ A *aMap }; type aMap = map[string]uint8"},
	{"AliasTag", "type AliasTag struct{ A aByte `rlp:\"nil\"` }; type aByte = uint8"},
	{"AliasEnc", "type AliasEnc struct{ A *aEnc }; type aEnc = t.EncOnly"},
	{"Missing", ""},
	{"", ""},
}

const refusedHead = `package u

import "rlp/t"

var _ t.Cust
`

func write(c *vk.C, path, s string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		c.HarnessError("%v", err)
	}
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		c.HarnessError("%v", err)
	}
}

func run(dir, name string, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.WaitDelay = time.Second
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		if ctx.Err() != nil {
			e.WriteString("\npanic: no end after 150 s")
		}
		code = 1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	return o.String(), e.String(), code
}

func setup(c *vk.C, dir string) {
	write(c, filepath.Join(dir, "go.mod"), "module rlp\n\ngo 1.18\n")
	for from, to := range map[string]string{
		"mini/rlp.go.txt": "rlp.go", "mini/ref.go.txt": "ref/ref.go", "mini/main.go.txt": "drive/main.go",
		"mini/custom.go.txt": "t/custom.go", "mini/o/o.go.txt": "o-ther/o.go", "mini/o/third.go.txt": "third/third.go",
		"mini/o/big.go.txt": "my/big/big.go", "mini/o/t.go.txt": "sub/t/t.go",
	} {
		b, err := os.ReadFile(from)
		if err != nil {
			c.HarnessError("%v", err)
		}
		write(c, filepath.Join(dir, to), string(b))
	}
}

var header = regexp.MustCompile(`(?s)^// Code generated .*DO NOT EDIT\.\n\n//go:build !norlpgen\n(// \+build !norlpgen\n)?\npackage t\n`)

func TestC36(t *testing.T) {
	vk.Run(t, "C36", "random struct types put through the real generator, its output compiled and run on random values, valid and damaged inputs against a reflective reference codec; distinct = type, input size class and verdict", func(c *vk.C) {
		gen := os.Getenv("VERIF_RLPGEN")
		if gen == "" {
			c.HarnessError("no generator binary")
		}
		dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "rlp")
		setup(c, dir)

		r := &rnd{Rand: c.Rng("types", 0)}
		src := typesHead
		pkgFields := ""
		for i := 0; i < 14; i++ { // a type out of many packages
			p := fmt.Sprintf("pk%d", i)
			write(c, filepath.Join(dir, "many", p, "p.go"), "package "+p+"\n\ntype S struct {\n\tA uint8\n\tB []string\n}\n\ntype L []uint16\n")
			src = strings.Replace(src, "import (\n", "import (\n\t\"rlp/many/"+p+"\"\n", 1) + "\nvar _ " + p + ".S\n"
			pkgFields += fmt.Sprintf("F%d %s\n", i, fmt.Sprintf(r.pick("%s.S", "*%s.S", "[]%s.L", "%s.L", "[]*%s.S"), p))
		}
		var names, decls []string
		add := func(body string) {
			n := fmt.Sprintf("T%d", len(names))
			names = append(names, n)
			d := "type " + n + " struct {\n" + body + "\n}\n"
			decls = append(decls, d)
			src += "\n" + d
		}
		for _, b := range fixed {
			add(b)
		}
		wide, opt := "", "A uint8\n"
		for i := 0; i < 60; i++ {
			f := r.pick("uint8", "uint16", "uint64", "bool", "string", "[]byte", "[3]byte", "*uint32", "*big.Int", "[]uint64", "*Flat", "[]*Flat", "struct{ A []string }")
			wide += fmt.Sprintf("F%d %s\n", i, f)
			if f != "struct{ A []string }" {
				opt += fmt.Sprintf("F%d %s `rlp:\"optional\"`\n", i, f)
			}
		}
		add(wide)
		add(opt)
		huge, hugeOpt := "", ""
		for i := 0; i < 300; i++ {
			huge += fmt.Sprintf("F%d %s\n", i, r.pick("uint8", "uint64", "bool", "string", "*uint32", "[]uint64"))
			hugeOpt += fmt.Sprintf("F%d %s `rlp:\"optional\"`\n", i, r.pick("uint8", "uint64", "bool", "string"))
		}
		add(huge)
		add(hugeOpt)
		add(pkgFields)
		deep, deepP, lists := "A uint8", "A *uint8 `rlp:\"nil\"`", "uint16"
		for i := 0; i < 8; i++ {
			deep = fmt.Sprintf("B uint16\nC []struct{\n%s\n}\nD string", deep)
			deepP = fmt.Sprintf("C *struct{\n%s\n} `rlp:\"nil\"`\nE []*uint8", deepP)
			lists = "[]" + lists
		}
		add(deep)
		add(deepP)
		add("A " + lists + "\nB *" + lists + "\nC " + lists + " `rlp:\"optional\"`")
		total := c.N(40, 400)
		for len(names) < total {
			body, _, empty := r.body(3, 8, true)
			add(body)
			if n := len(names); !empty && len(body) < 400 {
				r.types = append(r.types, names[n-1])
				if len(r.types) > 6 {
					r.types = r.types[1:]
				}
			}
		}
		write(c, filepath.Join(dir, "t/types.go"), src)
		write(c, filepath.Join(dir, "t/zzz/z.go"), "package zzz\n\ntype T1 struct { A uint8 }\n")
		if o, e, code := run(dir, "go", "build", "-tags", "norlpgen", "./t"); code != 0 {
			c.HarnessError("generated types do not compile: %s%s", o, e)
		}

		// Generate: to files, to standard output, over stale output.
		code := make([]string, len(names))
		work := make(chan int, len(names))
		for i := range names {
			work <- i
		}
		close(work)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range work {
					args := []string{"-dir", "t", "-type", names[i], "-decoder"}
					if i%3 == 1 {
						args = append(args, "-encoder=true")
					}
					out := filepath.Join(dir, "out", names[i]+".txt")
					if i%2 == 0 {
						os.MkdirAll(filepath.Dir(out), 0o755)
						if i%4 == 0 {
							os.WriteFile(out, []byte(strings.Repeat("stale ", 5000)), 0o644)
						}
						args = append(args, "-out", out)
					}
					o, e, rc := run(dir, gen, args...)
					if rc != 0 {
						c.ViolateAsync("generate", "rlpgen %v fails with %q for\n%s", args, e, decls[i])
						continue
					}
					if i%2 == 0 {
						b, _ := os.ReadFile(out)
						if o != "" || len(b) == 0 {
							c.ViolateAsync("output", "rlpgen %v wrote %d bytes to the file and %d to standard output", args, len(b), len(o))
						}
						o = string(b)
					}
					code[i] = o
					if !header.MatchString(o) {
						c.ViolateAsync("header", "output of rlpgen %v begins %.120q", args, o)
					}
				}
			}()
		}
		wg.Wait()
		if c.Violations() > 0 {
			return
		}
		reg := "package t\n\nvar All = []interface{}{"
		for i, n := range names {
			write(c, filepath.Join(dir, "t", "gen_"+n+".go"), code[i])
			reg += "&" + n + "{}, "
		}
		write(c, filepath.Join(dir, "t/reg.go"), reg+"}\n")
		o, e, rc := run(dir, "go", "build", "-o", filepath.Join(dir, "drive.bin"), "./drive")
		if rc != 0 {
			d := ""
			if m := regexp.MustCompile(`gen_T(\d+)\.go`).FindStringSubmatch(o + e); m != nil {
				var i int
				fmt.Sscan(m[1], &i)
				d = decls[i] + "\n" + code[i]
			}
			c.Violate("does not compile", "generated code: %s%s\n%s", o, e, d)
			return
		}
		c.Count("types generated and compiled", len(names))

		// Which methods: by flags, and generating again over generated code.
		for _, x := range []struct {
			args     []string
			enc, dec bool
		}{
			{nil, true, false},
			{[]string{"-decoder"}, true, true},
			{[]string{"-encoder=false", "-decoder"}, false, true},
			{[]string{"-encoder=false", "-decoder=true"}, false, true},
			{[]string{"-decoder=false"}, true, false},
		} {
			args := append([]string{"-dir", "./t", "-type", "T1"}, x.args...)
			o, e, rc := run(dir, gen, args...)
			if rc != 0 {
				c.Violate("regenerate", "rlpgen %v over generated code fails: %s", args, e)
				continue
			}
			en, de := strings.Contains(o, ") EncodeRLP("), strings.Contains(o, ") DecodeRLP(")
			if en != x.enc || de != x.dec {
				c.Violate("methods", "rlpgen %v generates encoder %v and decoder %v", args, en, de)
			}
			if x.enc && x.dec && o != code[1] {
				c.Violate("not deterministic", "rlpgen %v generates\n%s\nand then\n%s", args, code[1], o)
			}
			c.Eval("flags " + fmt.Sprint(x.args))
			if !x.enc || !x.dec {
				write(c, filepath.Join(dir, "part/t.go"), "package part\n\ntype T1 struct { A uint8; B *string `rlp:\"nil\"` }\n")
				o, e, rc := run(dir, gen, append([]string{"-dir", "part", "-type", "T1", "-out", filepath.Join(dir, "part/g.go")}, x.args...)...)
				if rc == 0 {
					o, e, rc = run(dir, "go", "build", "./part")
				}
				if rc != 0 {
					c.Violate("one method", "rlpgen %v: %s%s", x.args, o, e)
				}
				os.RemoveAll(filepath.Join(dir, "part"))
			}
		}

		// Another name for the type gives the type's methods.
		write(c, filepath.Join(dir, "al/t.go"), "package al\n\ntype T struct { A uint8 }\n\ntype U = T\n")
		o1, e1, rc1 := run(dir, gen, "-dir", "al", "-type", "T", "-decoder")
		o2, e2, rc2 := run(dir, gen, "-dir", "al", "-type", "U", "-decoder")
		if rc1 != 0 || rc2 != 0 || o1 != o2 {
			c.Violate("alias", "rlpgen for T gives\n%s%s\nfor its alias U\n%s%s", o1, e1, o2, e2)
		}
		c.Eval("alias of the type")
		os.RemoveAll(filepath.Join(dir, "al"))

		// Whatever stands in generated files is not looked at.
		write(c, filepath.Join(dir, "t/gen_broken.go"), "// Code generated by rlpgen. DO NOT EDIT.\n\n//go:build !norlpgen\n// +build !norlpgen\n\npackage t\n\nvar X int = \"s\"\n\ntype Flat struct{}\n\nfunc (T1) EncodeRLP() {}\n")
		again := make(chan int, len(names))
		for i := range names {
			if i%7 == 0 || strings.Contains(decls[i], "T") && i%2 == 0 {
				again <- i
			}
		}
		close(again)
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range again {
					// In the package's directory, which is the default.
					o, e, rc := run(filepath.Join(dir, "t"), gen, "-type", names[i], "-decoder")
					if rc != 0 || o != code[i] {
						c.ViolateAsync("over broken output", "rlpgen for %s where there is generated code: %s\n%s\nbefore there was any:\n%s", decls[i], e, o, code[i])
					}
					c.Eval("over broken output")
				}
			}()
		}
		wg.Wait()
		if err := os.Remove(filepath.Join(dir, "t/gen_broken.go")); err != nil {
			c.HarnessError("%v", err)
		}

		// Output files: of the same length as before, or impossible.
		same := filepath.Join(dir, "out", "same.txt")
		write(c, same, strings.Repeat("x", len(code[1])))
		if o, e, rc := run(dir, gen, "-dir", "t", "-type", names[1], "-decoder", "-out", same); rc != 0 || o != "" {
			c.Violate("output", "rlpgen over a file of the same length: exit %d, %s%s", rc, o, e)
		} else if b, _ := os.ReadFile(same); string(b) != code[1] {
			c.Violate("output", "rlpgen left in a file of the same length:\n%s", b)
		}
		for _, out := range []string{filepath.Join(dir, "no/such/dir.txt"), dir, filepath.Join(same, "x")} {
			o, e, rc := run(dir, gen, "-dir", "t", "-type", names[1], "-decoder", "-out", out)
			if rc == 0 || strings.TrimSpace(e) == "" || strings.Contains(e, "panic:") {
				c.Violate("output failure", "rlpgen writing to %s: exit %d, output %.100q, error %q", out, rc, o, e)
			}
			c.Eval("output failure")
		}

		// The package of the codec itself cannot be generated for.
		if o, e, rc := run(dir, gen, "-dir", ".", "-type", "Stream"); rc == 0 || strings.Contains(e, "panic:") || strings.TrimSpace(e) == "" || o != "" {
			c.Violate("codec package", "rlpgen for package rlp itself: exit %d, output %.200q, error %q", rc, o, e)
		}
		c.Eval("codec package")

		// A type that holds itself, by way of the methods to be generated.
		rec, err := os.ReadFile("mini/o/rec.go.txt")
		if err != nil {
			c.HarnessError("%v", err)
		}
		write(c, filepath.Join(dir, "rec/rec.go"), string(rec))
		write(c, filepath.Join(dir, "rec/stub.go"), "//go:build norlpgen\n\npackage main\n\nimport (\n\t\"io\"\n\t\"rlp\"\n)\n\nfunc (*Node) EncodeRLP(io.Writer) error    { return nil }\nfunc (*Node) DecodeRLP(*rlp.Stream) error { return nil }\n")
		for i := 0; i < 2; i++ { // the second time over the first's output
			if o, e, rc := run(filepath.Join(dir, "rec"), gen, "-type", "Node", "-decoder", "-out", "gen_node.go"); rc != 0 {
				c.Violate("recursion through methods", "rlpgen for a type with methods in a norlpgen file: %s%s", o, e)
				break
			}
			o, e, rc := run(dir, "go", "run", "./rec")
			if rc != 0 || !strings.HasPrefix(o, "ok ") {
				b, _ := os.ReadFile(filepath.Join(dir, "rec/gen_node.go"))
				c.Violate("recursion through methods", "%s%s\n%s", o, e, b)
			}
			c.Eval("recursion through methods")
		}
		os.RemoveAll(filepath.Join(dir, "rec"))

		// Refusals.
		us := refusedHead
		for _, x := range refused {
			us += x.decl + "\n"
		}
		write(c, filepath.Join(dir, "u/u.go"), us)
		if o, e, code := run(dir, "go", "build", "./u"); code != 0 {
			c.HarnessError("unsupported types do not compile: %s%s", o, e)
		}
		wk := make(chan int, len(refused))
		for i := range refused {
			wk <- i
		}
		close(wk)
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range wk {
					x := refused[i]
					out := filepath.Join(dir, "out", "refused"+x.name)
					o, e, rc := run(dir, gen, "-dir", "u", "-type", x.name, "-out", out, fmt.Sprintf("-decoder=%v", i%2 == 0))
					if rc == 0 {
						b, _ := os.ReadFile(out)
						c.ViolateAsync("accepts unsupported", "%s: generates\n%s%s", x.decl, o, b)
					} else if strings.Contains(e, "panic:") || strings.Contains(e, "goroutine ") || strings.TrimSpace(e) == "" {
						c.ViolateAsync("crash", "%s: instead of an error the generator gives %q", x.decl, e)
					} else if _, err := os.Stat(out); err == nil {
						c.ViolateAsync("output of failure", "%s: a file was written although %q", x.decl, e)
					}
					c.Eval("refused " + x.name)
				}
			}()
		}
		wg.Wait()

		// Packages that do not compile, by one error or several.
		for i, bad := range []string{"var X int = \"s\"", "func F() int { return undefined }", "import \"fmt\"", "var X int = \"s\"; var Y string = 1; type Z struct{ A Q }", "func {"} {
			d := filepath.Join(dir, fmt.Sprintf("bad%d", i))
			write(c, filepath.Join(d, "a.go"), "package bad\n\n"+strings.TrimPrefix(bad, "\n")+"\n\ntype T struct { A uint8 }\n")
			out := filepath.Join(d, "out.txt")
			o, e, rc := run(dir, gen, "-dir", d, "-type", "T", "-out", out)
			if rc == 0 {
				c.Violate("accepts broken package", "a package with %q: generates %s", bad, o)
			} else if strings.Contains(e, "panic:") || strings.Contains(e, "goroutine ") || strings.TrimSpace(e) == "" {
				c.Violate("crash", "a package with %q: instead of an error the generator gives %q", bad, e)
			} else if _, err := os.Stat(out); err == nil {
				c.Violate("output of failure", "a package with %q: a file was written although %q", bad, e)
			}
			c.Eval(fmt.Sprint("broken package ", i))
			os.RemoveAll(d)
		}
		for _, d := range []string{"nosuch", "empty"} {
			if d == "empty" {
				os.Mkdir(filepath.Join(dir, d), 0o755)
			}
			o, e, rc := run(dir, gen, "-dir", d, "-type", "T")
			if rc == 0 || strings.Contains(e, "panic:") || strings.TrimSpace(e) == "" || o != "" {
				c.Violate("no package", "directory %s: exit %d, output %q, error %q", d, rc, o, e)
			}
			c.Eval("no package " + d)
		}

		// Known defect, kept visible: pointers to named byte slices.
		write(c, filepath.Join(dir, "k/k.go"), "package k\n\nimport \"rlp\"\n\ntype K struct { A *rlp.RawValue }\n")
		o, e, rc = run(dir, gen, "-dir", "k", "-type", "K", "-decoder", "-out", filepath.Join(dir, "k/g.go"))
		if rc != 0 {
			c.Violate("generate", "rlpgen fails for a pointer to RawValue: %s%s", o, e)
		} else if o, e, rc = run(dir, "go", "build", "./k"); rc != 0 {
			c.Violate("pointer to named byte slice", "decoder of struct{ A *rlp.RawValue } does not compile: %s%s", o, e)
		}
		os.RemoveAll(filepath.Join(dir, "k"))

		// Drive the generated code.
		count := c.N(300, 3000)
		quirks := 0
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.N(300, 3000))*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, filepath.Join(dir, "drive.bin"), fmt.Sprint(c.Rng("drive", 0).Int31()), fmt.Sprint(count))
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		stdout, err := cmd.Output()
		types := 0
		for _, l := range bytes.Split(stdout, []byte("\n")) {
			var m struct {
				Sig, Detail, Sample, Type      string
				Good, Bad, Negative, Shapes, N int
			}
			if json.Unmarshal(l, &m) != nil {
				continue
			}
			switch {
			case m.Sig == "nil field not consumed":
				if quirks++; quirks == 1 {
					c.Violate(m.Sig, "%s", m.Detail)
				}
			case m.Sig != "":
				d := ""
				if f := regexp.MustCompile(`^t\.T(\d+)\b`).FindStringSubmatch(m.Detail); f != nil {
					var i int
					fmt.Sscan(f[1], &i)
					d = "\n" + decls[i]
				}
				c.Violate(m.Sig, "%s%s", m.Detail, d)
			case m.Sample != "":
				c.Sample("%s", m.Sample)
			case m.Type != "":
				types++
				for i := 0; i < m.Good+m.Bad; i++ {
					c.Eval(fmt.Sprintf("%s shape %d", m.Type, i%max(m.Shapes, 1)))
				}
				c.Count("values encoded", m.N)
				c.Count("inputs decoded", m.Good)
				c.Count("inputs refused", m.Bad)
				c.Count("negative integers refused", m.Negative)
			}
		}
		c.Count("nil fields left in the stream (known finding)", quirks)
		if ctx.Err() != nil {
			c.Violate("driver hangs", "generated code: no end after %d of %d types, the next is %s", types, len(names), decls[min(types, len(decls)-1)])
			return
		}
		if err != nil || types != len(names) {
			if !strings.Contains(stderr.String(), "out of memory") {
				c.Violate("driver crash", "generated code: %.3000s", stderr.String())
				return
			}
			c.HarnessError("driver: %v, %d of %d types: %.3000s", err, types, len(names), stderr.String())
		}
	})
}
