package rlpstruct

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"

	rs "flychain/rlp/verifbridge"
	"verifharness/vk"
)

var kinds = []reflect.Kind{
	reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
	reflect.Uintptr, reflect.Float64, reflect.Complex128, reflect.Chan, reflect.Func, reflect.Interface, reflect.Map,
	reflect.String, reflect.Struct, reflect.UnsafePointer, reflect.Ptr, reflect.Slice, reflect.Array,
}

func genType(r *rand.Rand, depth int) rs.Type {
	k := kinds[r.Intn(len(kinds))]
	if r.Intn(3) == 0 {
		k = []reflect.Kind{reflect.Ptr, reflect.Slice, reflect.Array, reflect.Uint8}[r.Intn(4)]
	}
	t := rs.Type{Name: fmt.Sprintf("t%d", r.Intn(5)), Kind: k, IsEncoder: r.Intn(4) == 0, IsDecoder: r.Intn(4) == 0}
	switch k {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		if depth == 0 {
			return rs.Type{Name: "byte", Kind: reflect.Uint8, IsEncoder: r.Intn(3) == 0}
		}
		e := genType(r, depth-1)
		t.Elem = &e
	}
	return t
}

func show(t rs.Type) string {
	s := t.Kind.String()
	if t.IsEncoder {
		s += "+enc"
	}
	if t.Elem != nil {
		s += " of " + show(*t.Elem)
	}
	return s
}

func genTag(r *rand.Rand) string {
	words := []string{"", "-", "nil", "nilString", "nilList", "optional", "tail", "optional", "nil", "Nil", "optionals", "omitempty", "nil String", "--", "tail;"}
	var parts []string
	n := r.Intn(3)
	if r.Intn(10) == 0 {
		n = vk.Tail(r, 10, 5, 40)
	}
	for i := 0; i < n; i++ {
		k := len(words)
		if r.Intn(8) > 0 {
			k = 9 // usually something valid
		}
		w := words[r.Intn(k)]
		switch r.Intn(8) {
		case 0:
			w = " " + w
		case 1:
			w += "\t "
		}
		parts = append(parts, w)
	}
	tag := fmt.Sprintf("rlp:%q", strings.Join(parts, ","))
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf(`json:"optional,tail" %s xml:"nil"`, tag)
	case 2:
		return `json:"nil,optional"`
	}
	return tag
}

// spec is the independent reading of the rules.
type spec struct {
	nilOK    bool
	nilKind  byte
	optional bool
	tail     bool
	ignored  bool
	bad      map[string]bool // offending tags
}

func stringKind(t *rs.Type) bool {
	switch t.Kind {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.String, reflect.Bool:
		return true
	case reflect.Slice, reflect.Array:
		return t.Elem.Kind == reflect.Uint8 && !t.Elem.IsEncoder
	}
	return false
}

func read(f rs.Field, last bool) (s spec) {
	s.bad = map[string]bool{}
	text := reflect.StructTag(f.Tag).Get("rlp")
	for _, w := range strings.Split(text, ",") {
		w = strings.TrimSpace(w)
		switch w {
		case "":
		case "-":
			s.ignored = true
		case "optional":
			s.optional = true
		case "tail":
			s.tail = true
			if !last || f.Type.Kind != reflect.Slice {
				s.bad["tail"] = true
			}
		case "nil", "nilString", "nilList":
			s.nilOK = true
			if f.Type.Kind != reflect.Ptr {
				s.bad[w] = true
				continue
			}
			s.nilKind = 0xC0
			if w == "nilString" || w == "nil" && stringKind(f.Type.Elem) {
				s.nilKind = 0x80
			}
		default:
			s.bad[w] = true
		}
	}
	if s.tail && s.optional {
		s.bad["tail"], s.bad["optional"] = true, true
	}
	return s
}

func TestC35(t *testing.T) {
	vk.Run(t, "C35", "random struct descriptions (exported or not, all kinds of types, valid and invalid tag lists) classified by an independent reading of the tag rules; distinct = fields, kinds, tags and verdict", func(c *vk.C) {
		n := c.N(60000, 3000000)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < n; i += 8 {
					r := c.Rng("struct", i)
					nf := vk.Tail(r, 40, 6, 200)
					if i%200 < 2 { // very wide, beyond anything written by hand
						nf = 60 + r.Intn(500)
					}
					if i%15000 < 4 {
						nf = 1000 + r.Intn(3000)
					}
					one(c, r, nf)
				}
			}(w)
		}
		wg.Wait()
		errorText(c)
	})
}

func one(c *vk.C, r *rand.Rand, nf int) {
	var fields []rs.Field
	// A wide struct mostly follows the rules: optional from some field on,
	// with two fields or so that may break them.
	wide := nf >= 60 && r.Intn(3) > 0
	from := nf - r.Intn(1+nf/(1+r.Intn(8)))
	defer func() {
		if wide {
			c.Count("fields of wide structs", nf)
		}
	}()
	for i := 0; i < nf; i++ {
		f := rs.Field{Name: fmt.Sprintf("F%d", i), Index: i, Exported: r.Intn(5) > 0, Type: genType(r, 3), Tag: genTag(r)}
		if r.Intn(4) == 0 || nf > 6 && r.Intn(nf) > 2 { // more structs that pass
			f.Tag = []string{"", `rlp:"optional"`, `rlp:"-"`, `rlp:""`}[r.Intn(4)]
		}
		if r.Intn(5) == 0 {
			e := genType(r, 2)
			f.Type = rs.Type{Name: "p", Kind: reflect.Ptr, Elem: &e}
			f.Tag = []string{`rlp:"nil"`, `rlp:"nilString"`, `rlp:"nilList"`, `rlp:"nil,optional"`, `rlp:"optional, nilList"`}[r.Intn(5)]
		}
		if wide && (r.Intn(nf) > 1 || r.Intn(3) > 0) {
			f.Tag = []string{"", `rlp:"-"`, `rlp:""`, `json:"x"`}[r.Intn(4)]
			opt := i >= from
			if opt {
				f.Tag = []string{`rlp:"optional"`, `rlp:"-"`, `rlp:" optional,"`, `rlp:"optional,optional"`}[r.Intn(4)]
			}
			if f.Type.Kind == reflect.Ptr && r.Intn(2) == 0 {
				if f.Tag = []string{`rlp:"nil"`, `rlp:"nilString"`, `rlp:"nilList"`}[r.Intn(3)]; opt {
					f.Tag = []string{`rlp:"optional,nil"`, `rlp:"nilString,optional"`, `rlp:"nilList, optional"`}[r.Intn(3)]
				}
			}
		}
		if i == nf-1 && r.Intn(4) == 0 {
			f.Tag, f.Type.Kind = `rlp:"tail"`, reflect.Slice
			e := genType(r, 1)
			f.Type.Elem = &e
		}
		fields = append(fields, f)
	}
	desc := ""
	key := ""
	for _, f := range fields {
		desc += fmt.Sprintf("{%s exported=%v %s `%s`} ", f.Name, f.Exported, show(f.Type), f.Tag)
		key += fmt.Sprint(f.Exported, f.Type.Kind, f.Tag, ";")
	}

	// Expectation.
	last := -1
	for i, f := range fields {
		if f.Exported {
			last = i
		}
	}
	var want []rs.Field
	var specs []spec
	badField := ""
	var badTags map[string]bool
	for i, f := range fields {
		if !f.Exported {
			continue
		}
		s := read(f, i == last)
		if len(s.bad) > 0 {
			badField, badTags = f.Name, s.bad
			break
		}
		if !s.ignored {
			want, specs = append(want, f), append(specs, s)
		}
	}
	// Whether ignored fields may follow a tail is left open.
	for i := last; i >= 0; i-- {
		if s := read(fields[i], true); fields[i].Exported && !s.ignored {
			if s.tail && i != last {
				return
			}
			break
		}
	}
	order, first := "", ""
	if badField == "" {
		for i, s := range specs {
			switch {
			case s.optional || s.tail:
				if first == "" {
					first = want[i].Name
				}
			case first != "" && order == "":
				order = want[i].Name
			}
		}
	}

	orig := append([]rs.Field{}, fields...)
	var got []rs.Field
	var tags []rs.Tags
	var err error
	if !c.NoPanic("ProcessFields "+desc, func() { got, tags, err = rs.ProcessFields(fields) }) {
		return
	}
	if len(fields) > 0 && !reflect.DeepEqual(orig, fields) {
		c.ViolateAsync("changes its input", "%s became %+v", desc, fields)
	}
	switch {
	case badField != "":
		te, ok := err.(rs.TagError)
		if !ok || te.Field != badField || !badTags[te.Tag] || te.Err == "" {
			c.ViolateAsync("invalid tag", "%s: error %#v, want one about field %s and one of the tags %v", desc, err, badField, badTags)
		}
		key += "bad tag"
		c.Count("invalid tags refused", 1)
	case order != "":
		te, ok := err.(rs.TagError)
		if !ok || te.Field != order || te.Tag != "" || !strings.Contains(te.Err, fmt.Sprintf("%q", first)) {
			c.ViolateAsync("field order", "%s: error %#v, want one about field %s because %s is optional", desc, err, order, first)
		}
		key += "order"
		c.Count("fields after optional ones refused", 1)
	default:
		if err != nil {
			c.ViolateAsync("refuses valid", "%s: error %v", desc, err)
			break
		}
		if len(got) != len(want) || len(tags) != len(want) {
			c.ViolateAsync("fields", "%s: %d fields and %d tags, want %d", desc, len(got), len(tags), len(want))
			break
		}
		for i := range want {
			if !reflect.DeepEqual(got[i], want[i]) {
				c.ViolateAsync("fields", "%s: field %d is %+v, want %+v", desc, i, got[i], want[i])
			}
			s := specs[i]
			w := rs.Tags{NilOK: s.nilOK, Optional: s.optional, Tail: s.tail, NilKind: rs.NilKind(s.nilKind)}
			if tags[i] != w {
				c.ViolateAsync("tags", "%s: tags of %s are %+v, want %+v", desc, want[i].Name, tags[i], w)
			}
			if s.tail {
				c.Count("tail fields", 1)
			}
			if s.nilOK {
				c.Count("nil fields", 1)
			}
			if s.optional {
				c.Count("optional fields", 1)
			}
			// The default for untagged pointers.
			if e := want[i].Type; e.Kind == reflect.Ptr {
				k := rs.NilKindList
				if stringKind(e.Elem) {
					k = rs.NilKindString
				}
				if g := e.Elem.DefaultNilValue(); g != k {
					c.ViolateAsync("default nil value", "%s: default for pointers to %s is %#x", desc, show(*e.Elem), g)
				}
			}
		}
		key += "ok"
		c.Count("structs accepted", 1)
	}
	c.Eval(key)
	if len(fields) > 2 {
		c.Sample("%s-> %v", desc, err)
	}
}

func errorText(c *vk.C) {
	r := c.Rng("error", 0)
	word := func() string {
		return []string{"A", "Field", "optional", "nil", "Some.Type", "x y", ""}[r.Intn(7)]
	}
	for i := 0; i < 2000; i++ {
		e := rs.TagError{StructType: word(), Field: word(), Tag: word(), Err: word()}
		where := "field " + e.Field
		if e.StructType != "" {
			where = e.StructType + "." + e.Field
		}
		s := e.Error()
		for _, part := range []string{`"` + e.Tag + `"`, where, e.Err} {
			if !strings.Contains(s, part) {
				c.Violate("error text", "%#v prints %q, without %q", e, s, part)
			}
		}
		c.Eval("text " + s)
	}
}
