package common

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"

	"flychain/common/hexutil"
	"verifharness/vk"
)

// class is what an input is, decided independently of the code under test.
type class int

const (
	ok class = iota
	empty
	noPrefix
	odd
	syntax
	emptyNum
	leadZero
	tooBig
)

var classNames = []string{"ok", "empty", "noprefix", "odd", "syntax", "emptynum", "leadzero", "toobig"}

func hasPrefix(s string) bool {
	return strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X")
}

func allHex(s string) bool { return strings.Trim(s, "0123456789abcdefABCDEF") == "" && hexOnly(s) }

func hexOnly(s string) bool {
	for _, c := range []byte(s) {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(c)) || c >= 0x80 {
			return false
		}
	}
	return true
}

// bytesClasses lists every defect of a bytes literal; none means valid.
func bytesClasses(s string, needPrefix bool) (cs []class) {
	if hasPrefix(s) {
		s = s[2:]
	} else if needPrefix {
		return []class{noPrefix}
	}
	if len(s)%2 == 1 {
		cs = append(cs, odd)
	}
	if !allHex(s) {
		cs = append(cs, syntax)
	}
	return
}

func numClasses(s string, bits int) (cs []class) {
	if !hasPrefix(s) {
		return []class{noPrefix}
	}
	s = s[2:]
	if s == "" {
		return []class{emptyNum}
	}
	if len(s) > 1 && s[0] == '0' {
		cs = append(cs, leadZero)
	}
	if !allHex(s) {
		cs = append(cs, syntax)
	}
	if len(s) > bits/4 {
		cs = append(cs, tooBig)
	}
	return
}

var classErr = map[class]error{empty: hexutil.ErrEmptyString, noPrefix: hexutil.ErrMissingPrefix, odd: hexutil.ErrOddLength, syntax: hexutil.ErrSyntax, emptyNum: hexutil.ErrEmptyNumber, leadZero: hexutil.ErrLeadingZero}

// errFits: is err one of the errors the defects allow?
func errFits(err error, cs []class, big error) bool {
	if len(cs) == 0 {
		return err == nil
	}
	for _, k := range cs {
		want := classErr[k]
		if k == tooBig {
			want = big
		}
		if errors.Is(err, want) {
			return true
		}
		var te *json.UnmarshalTypeError
		if errors.As(err, &te) && te.Value == want.Error() {
			return true
		}
	}
	return false
}

// typeErr: JSON decoders report a refused literal as a type error for the
// target, wrapping the defect.
func typeErr(err error) bool {
	var te *json.UnmarshalTypeError
	return err == nil || errors.As(err, &te) && te.Type != nil
}

// halfQuoted are JSON-like texts around a literal that are no JSON strings.
func halfQuoted(r *rand.Rand, s string) string {
	x := string(rune(33 + r.Intn(90)))
	return []string{`"` + s, s + `"`, `"` + s + x, x + s + `"`, x + s + x, `'` + s + `'`, `"` + s + `'`, ` "` + s + `"`, `"` + s + `" `, s}[r.Intn(10)]
}

func csName(cs []class) string {
	if len(cs) == 0 {
		return "ok"
	}
	s := ""
	for _, k := range cs {
		s += classNames[k] + " "
	}
	return s
}

const digits = "0123456789abcdefABCDEF"

func genHex(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = digits[r.Intn(len(digits))]
	}
	return string(b)
}

// genLit makes literals around the validity boundary.
func genLit(r *rand.Rand, sizes ...int) string {
	n := r.Intn(10)
	if len(sizes) > 0 && r.Intn(2) == 0 {
		n = sizes[r.Intn(len(sizes))] + r.Intn(3) - 1
		if n < 0 {
			n = 0
		}
	} else if r.Intn(6) == 0 {
		n = vk.Tail(r, 60, 140, 12000)
	}
	s := genHex(r, n)
	if r.Intn(3) == 0 {
		s = strings.TrimLeft(s, "0")
	}
	switch r.Intn(8) {
	case 0:
		if len(s) > 0 {
			i := r.Intn(len(s))
			bad := []string{"g", "G", " ", "x", "/", ":", "@", "`", "-", "+", "_", ".", "\x00", "\xff", "é", "\u0130", "０"}
			s = s[:i] + bad[r.Intn(len(bad))] + s[i+1:]
		}
	case 1:
		s = strings.Repeat("0", vk.Tail(r, 20, 4, 500)) + s
	}
	switch r.Intn(12) {
	case 0:
	case 1:
		s = []string{"x", "0", "00x", " 0x", "-0x", "0y", "1x", "\\x", "0х"}[r.Intn(9)] + s
	case 2, 3:
		s = "0X" + s
	default:
		s = "0x" + s
	}
	switch r.Intn(60) { // the whole literal in something else
	case 0, 1:
		s = ""
	case 2, 3:
		s = []string{"0x", "0X", " ", "\t", "\n", "+", "-", "#", "$", "\ufeff", "\x00", "'", "\""}[r.Intn(13)] + s
	case 4, 5:
		s += []string{" ", "\n", "\r\n", "h", "H", "n", "L", "\x00", ".0", "p0", "e1", ",", "0x", "'", "\""}[r.Intn(15)]
	}
	return s
}

func decodeHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func jsonQuote(s string) []byte { return []byte(`"` + s + `"`) }

// jsonSafe: the literal stands for itself inside a JSON string.
func jsonSafe(s string) bool {
	for _, c := range []byte(s) {
		if c < 0x20 || c >= 0x7f || c == '"' || c == '\\' {
			return false
		}
	}
	return true
}

func TestC22(t *testing.T) {
	vk.Run(t, "C22", "byte strings of all lengths encoded and decoded through every bytes codec, and literals around the validity boundary classified by an independent grammar; distinct = codec, defects and length", func(c *vk.C) {
		key := func(what string, cs []class, s string) { c.Eval(fmt.Sprint(what, csName(cs), len(s))) }
		c.Mixed(c.N(40000, 1500000), func(i int) {
			r := c.Rng("bytes", i)
			// Valid data, every route.
			n := r.Intn(40)
			if r.Intn(10) == 0 {
				n = vk.Tail(r, 40, 5000, c.N(1<<18, 1<<21))
			}
			b := make([]byte, n)
			r.Read(b)
			keep := append([]byte{}, b...)
			want := "0x" + hex.EncodeToString(b)
			s0 := hexutil.Encode(b)
			if s0 != want {
				c.Violate("encode", "Encode(%x) = %s", b, s0)
			}
			c.Hold("Encode", s0)
			if s := hexutil.Bytes(b).String(); s != want {
				c.Violate("string", "Bytes(%x).String() = %s", b, s)
			}
			if s, err := hexutil.Bytes(b).MarshalText(); err != nil || string(s) != want {
				c.Violate("marshaltext", "Bytes(%x).MarshalText() = %s, %v", b, s, err)
			} else {
				c.Hold("Bytes.MarshalText", s)
			}
			if j, err := json.Marshal(struct{ X hexutil.Bytes }{b}); err != nil || string(j) != `{"X":"`+want+`"}` {
				c.Violate("marshaljson", "%s %v", j, err)
			}
			if d, err := hexutil.Decode(want); err != nil || !bytes.Equal(d, b) {
				c.Violate("roundtrip", "Decode(%s) = %x, %v", want, d, err)
			} else {
				c.Hold("Decode", d)
			}
			var back struct{ X hexutil.Bytes }
			if err := json.Unmarshal([]byte(`{"X":"`+want+`"}`), &back); err != nil || !bytes.Equal(back.X, b) {
				c.Violate("json roundtrip", "%s read back as %x, %v", want, back.X, err)
			} else {
				c.Hold("Bytes.UnmarshalJSON", []byte(back.X))
			}
			if !bytes.Equal(b, keep) {
				c.Violate("input changed", "encoding changed %x to %x", keep, b)
			}
			key("valid", nil, want)

			// Arbitrary literals.
			s := genLit(r, 4, 8, 40, 64)
			cs := bytesClasses(s, true)
			c.Sample("%q: %s", s, csName(cs))
			csD := cs
			if s == "" {
				csD = []class{empty}
			}
			d, err := hexutil.Decode(s)
			key("decode", csD, s)
			if !errFits(err, csD, nil) || err == nil && !bytes.Equal(d, decodeHex(s[2:])) {
				c.Violate("decode "+csName(csD), "Decode(%q) = %x, %v; the literal is %s", s, d, err, csName(csD))
			}
			v, _ := vk.Panics(func() { d = hexutil.MustDecode(s) })
			if (v != nil) != (len(csD) > 0) || v == nil && !bytes.Equal(d, decodeHex(s[2:])) {
				c.Violate("mustdecode", "MustDecode(%q) = %x, panic %v", s, d, v)
			}
			// Text and JSON: the empty string means no bytes.
			csT := cs
			wantB := []byte{}
			if s == "" {
				csT = nil
			} else if len(cs) == 0 {
				wantB = decodeHex(s[2:])
			}
			orig := hexutil.Bytes{1, 2, 3}
			bt := append(hexutil.Bytes{}, orig...)
			alias := bt
			check := func(what string, err error) {
				key(what, csT, s)
				if !errFits(err, csT, nil) {
					c.Violate(what+" "+csName(csT), "%s(%q): %v; the literal is %s", what, s, err, csName(csT))
				}
				if err == nil && !bytes.Equal(bt, wantB) {
					c.Violate(what+" value", "%s(%q) = %x", what, s, bt)
				}
				if err == nil {
					c.Hold(what, []byte(bt))
				}
				if err != nil && !bytes.Equal(bt, orig) {
					c.Violate(what+" clobbers", "%s(%q) failed with %v but changed the target to %x", what, s, err, bt)
				}
				if !bytes.Equal(alias, orig) {
					c.Violate(what+" aliases", "%s(%q) overwrote the old value's memory: %x", what, s, alias)
				}
				bt = append(hexutil.Bytes{}, orig...)
				alias = bt
			}
			in := []byte(s)
			check("Bytes.UnmarshalText", bt.UnmarshalText(in))
			if string(in) != s {
				c.Violate("text input changed", "UnmarshalText changed its input %q to %q", s, in)
			}
			if s != "" {
				bb := append(hexutil.Bytes{}, orig...)
				if err := bb.UnmarshalText(in); err == nil {
					for j := range in {
						in[j] = 'z'
					}
					if !bytes.Equal(bb, wantB) {
						c.Violate("text retains input", "the value decoded from %q changes with the input buffer", s)
					}
				}
			}
			if jsonSafe(s) {
				check("Bytes.UnmarshalJSON", bt.UnmarshalJSON(jsonQuote(s)))
				var x struct{ X hexutil.Bytes }
				x.X = append(hexutil.Bytes{}, orig...)
				err := json.Unmarshal([]byte(`{"X":"`+s+`"}`), &x)
				bt = x.X
				alias = orig
				check("json.Unmarshal", err)
				if !typeErr(err) || !typeErr(bt.UnmarshalJSON(jsonQuote(s))) {
					c.Violate("no type error", "JSON %q into Bytes: %T %v", s, err, err)
				}
				bt = append(hexutil.Bytes{}, orig...)
				if h := halfQuoted(r, s); !strings.HasPrefix(h, `"`) || !strings.HasSuffix(h, `"`) || len(h) < 2 {
					if err := bt.UnmarshalJSON([]byte(h)); err == nil || !bytes.Equal(bt, orig) {
						c.Violate("half quoted", "Bytes.UnmarshalJSON(%s) = %x, %v", h, bt, err)
					}
					out := []byte{9, 8}
					if err := hexutil.UnmarshalFixedJSON(reflect.TypeOf(0), []byte(h), out); err == nil || out[0] != 9 || out[1] != 8 {
						c.Violate("half quoted", "UnmarshalFixedJSON(%s) = %x, %v", h, out, err)
					}
					bt = append(hexutil.Bytes{}, orig...)
				}
			}
			// GraphQL goes through the strict form.
			err = bt.UnmarshalGraphQL(s)
			key("graphql", csD, s)
			if !errFits(err, csD, nil) || err == nil && !bytes.Equal(bt, decodeHex(s[2:])) || err != nil && !bytes.Equal(bt, orig) {
				c.Violate("graphql", "Bytes.UnmarshalGraphQL(%q) = %x, %v", s, bt, err)
			}
			// Fixed size.
			for _, pre := range []bool{true, false} {
				out := make([]byte, []int{0, 2, 4, 20, 32, r.Intn(6)}[r.Intn(6)], 64)
				if len(cs) == 0 && r.Intn(2) == 0 {
					out = make([]byte, (len(s)-2)/2, (len(s)-2)/2+20)
				}
				r.Read(out)
				old := append([]byte{}, out...)
				fc := bytesClasses(s, pre)
				if s == "" {
					fc = nil
				}
				digs := s
				if hasPrefix(s) {
					digs = s[2:]
				}
				fn, name := hexutil.UnmarshalFixedText, "UnmarshalFixedText"
				if !pre {
					fn, name = hexutil.UnmarshalFixedUnprefixedText, "UnmarshalFixedUnprefixedText"
				}
				err := fn("T", []byte(s), out)
				valid := len(fc) == 0 && len(digs) == 2*len(out)
				c.Eval(fmt.Sprint(name, csName(fc), len(s), len(out)))
				if (err == nil) != valid {
					c.Violate(name+" accept", "%s(%q) into %d bytes: %v", name, s, len(out), err)
				}
				if err == nil && !bytes.Equal(out, decodeHex(digs)) {
					c.Violate(name+" value", "%s(%q) = %x", name, s, out)
				}
				if err != nil && !bytes.Equal(out, old) {
					c.Violate(name+" clobbers", "%s(%q) failed but changed the output from %x to %x", name, s, old, out)
				}
				if err != nil && len(digs)/2 == len(out) && !errFits(err, fc, nil) {
					c.Violate(name+" error", "%s(%q): %v; the literal is %s", name, s, err, csName(fc))
				}
				full := out[:cap(out)]
				for j := len(out); j < len(full); j++ {
					if full[j] != 0 {
						c.Violate(name+" overrun", "%s(%q) wrote past its output", name, s)
					}
				}
				if pre && jsonSafe(s) {
					copy(out, old)
					err := hexutil.UnmarshalFixedJSON(reflect.TypeOf(hexutil.Bytes{}), jsonQuote(s), out)
					if (err == nil) != valid || err == nil && !bytes.Equal(out, decodeHex(digs)) || err != nil && !bytes.Equal(out, old) {
						c.Violate("UnmarshalFixedJSON", "UnmarshalFixedJSON(%q) = %x (was %x), %v", s, out, old, err)
					}
				}
			}
			// Non-strings are refused without damage.
			for _, j := range []string{"null", "1", "{}", "[]", "true", `"`, `0x00`, ``, `"0x00`, `0x00"`} {
				bb := append(hexutil.Bytes{}, orig...)
				if err := bb.UnmarshalJSON([]byte(j)); err == nil || !bytes.Equal(bb, orig) {
					c.Violate("nonstring", "Bytes.UnmarshalJSON(%s) = %x, %v", j, bb, err)
				}
				out := []byte{9}
				if err := hexutil.UnmarshalFixedJSON(reflect.TypeOf(0), []byte(j), out); err == nil || out[0] != 9 {
					c.Violate("fixed nonstring", "UnmarshalFixedJSON(%s) = %x, %v", j, out, err)
				}
			}
		})
		var bb hexutil.Bytes
		for _, v := range []interface{}{1, int32(1), nil, []byte{1}, 1.5} {
			if err := bb.UnmarshalGraphQL(v); err == nil || bb != nil {
				c.Violate("graphql type", "Bytes.UnmarshalGraphQL(%T) = %x, %v", v, bb, err)
			}
		}
		if !bb.ImplementsGraphQLType("Bytes") || bb.ImplementsGraphQLType("Bytes32") {
			c.Violate("graphql name", "Bytes claims a wrong GraphQL type")
		}
		parallel(c, func(r *rand.Rand) {
			b := make([]byte, r.Intn(50))
			r.Read(b)
			if d, err := hexutil.Decode(hexutil.Encode(b)); err != nil || !bytes.Equal(d, b) {
				c.ViolateAsync("parallel", "%x", b)
			}
		})
	})
}

func parallel(c *vk.C, fn func(r *rand.Rand)) {
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		r := c.Rng("par", g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				fn(r)
			}
		}()
	}
	wg.Wait()
}

func genUint(r *rand.Rand, bits int) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(1)<<uint(r.Intn(bits)) - uint64(r.Intn(2))
	case 1:
		return ^uint64(0) >> uint(64-bits) >> uint(r.Intn(bits))
	case 2:
		return uint64(r.Intn(300))
	}
	return r.Uint64() >> uint(64-bits) >> uint(r.Intn(bits))
}

func genBig(r *rand.Rand, bits int) *big.Int {
	x := new(big.Int)
	switch r.Intn(5) {
	case 0:
		x.SetUint64(genUint(r, 64))
		if bits < 64 {
			x.SetUint64(genUint(r, bits))
		}
	case 1:
		x.Lsh(big.NewInt(1), uint(r.Intn(bits)))
		x.Sub(x, big.NewInt(int64(r.Intn(2))))
	case 2:
		x.Lsh(big.NewInt(1), uint(1+r.Intn(bits)))
		x.Sub(x, big.NewInt(1))
	default:
		b := make([]byte, r.Intn(bits/8+1))
		r.Read(b)
		if len(b) > 0 && r.Intn(2) == 0 {
			b[0] = 0
		}
		x.SetBytes(b)
	}
	if x.BitLen() > bits {
		x.SetInt64(1)
	}
	return x
}

func TestC23(t *testing.T) {
	vk.Run(t, "C23", "quantities at and around every power of two encoded and decoded through every number codec, and literals around the validity boundary classified by an independent grammar; distinct = codec, defects and size", func(c *vk.C) {
		hexOf := func(n *big.Int) string { return fmt.Sprintf("0x%x", n) }
		c.Mixed(c.N(40000, 1500000), func(i int) {
			r := c.Rng("num", i)
			u := genUint(r, 64)
			want := fmt.Sprintf("0x%x", u)
			jw := `"` + want + `"`
			for what, got := range map[string]string{
				"EncodeUint64": hexutil.EncodeUint64(u), "Uint64.String": hexutil.Uint64(u).String(), "Uint.String": hexutil.Uint(u).String(),
				"Uint64.MarshalText": text(hexutil.Uint64(u).MarshalText()), "Uint.MarshalText": text(hexutil.Uint(u).MarshalText()),
				"EncodeBig": hexutil.EncodeBig(new(big.Int).SetUint64(u)),
			} {
				if got != want {
					c.Violate(what, "%s(%d) = %s", what, u, got)
				}
				c.Hold(what, got)
			}
			for what, v := range map[string]interface{}{"json Uint64": hexutil.Uint64(u), "json Uint": hexutil.Uint(u), "json Big": (*hexutil.Big)(new(big.Int).SetUint64(u))} {
				if j, err := json.Marshal(v); err != nil || string(j) != jw {
					c.Violate(what, "%d marshals as %s, %v", u, j, err)
				}
			}
			n := genBig(r, 256)
			keep := new(big.Int).Set(n)
			hb := hexutil.Big(*n)
			if s := hexutil.EncodeBig(n); s != hexOf(keep) {
				c.Violate("EncodeBig", "EncodeBig(%x) = %s", keep, s)
			}
			if s := hb.String(); s != hexOf(keep) {
				c.Violate("Big.String", "Big(%x).String() = %s", keep, s)
			}
			if s, err := hb.MarshalText(); err != nil || string(s) != hexOf(keep) {
				c.Violate("Big.MarshalText", "Big(%x).MarshalText() = %s", keep, s)
			} else {
				c.Hold("Big.MarshalText", s)
			}
			if s, err := hexutil.Uint64(u).MarshalText(); err == nil {
				c.Hold("Uint64.MarshalText", s)
			}
			if hb.ToInt().Cmp(keep) != 0 || n.Cmp(keep) != 0 {
				c.Violate("Big changed", "encoding changed %x", keep)
			}
			if neg := new(big.Int).Neg(n); n.Sign() > 0 && hexutil.EncodeBig(neg) != "-"+hexOf(n) {
				c.Violate("EncodeBig negative", "EncodeBig(-%x) = %s", n, hexutil.EncodeBig(neg))
			}
			huge := new(big.Int).Lsh(n, uint(vk.Tail(r, 50, 300, 100000)))
			if s := hexutil.EncodeBig(huge); s != hexOf(huge) {
				c.Violate("EncodeBig huge", "EncodeBig(%x) = %s", huge, s)
			}
			c.Eval("enc" + want + hexOf(n))

			// Literals: valid ones and broken ones.
			var s string
			switch r.Intn(4) {
			case 0:
				s = want
			case 1:
				s = hexOf(genBig(r, 256))
			default:
				s = genLit(r, 1, 15, 16, 17, 63, 64, 65)
			}
			if r.Intn(3) == 0 && hasPrefix(s) {
				s = s[:2] + strings.ToUpper(s[2:])
			}
			c64, c256 := numClasses(s, 64), numClasses(s, 256)
			var val *big.Int
			if len(c256) == 0 {
				val, _ = new(big.Int).SetString(s[2:], 16)
			}
			c.Sample("%q: 64 bits %s, 256 bits %s", s, csName(c64), csName(c256))
			d64, d256 := c64, c256
			if s == "" {
				d64, d256 = []class{empty}, []class{empty}
			}
			c.Eval(fmt.Sprint("dec", csName(d64), csName(d256), len(s)))
			x, err := hexutil.DecodeUint64(s)
			if !errFits(err, d64, hexutil.ErrUint64Range) || err == nil && x != val.Uint64() {
				c.Violate("DecodeUint64 "+csName(d64), "DecodeUint64(%q) = %d, %v; the literal is %s", s, x, err, csName(d64))
			}
			y, err := hexutil.DecodeBig(s)
			if !errFits(err, d256, hexutil.ErrBig256Range) || err == nil && y.Cmp(val) != 0 {
				c.Violate("DecodeBig "+csName(d256), "DecodeBig(%q) = %v, %v; the literal is %s", s, y, err, csName(d256))
			}
			if err == nil && (y.String() != val.String() || fmt.Sprint(y.Bits()) != fmt.Sprint(val.Bits()) || y.Sign() != val.Sign()) {
				c.Violate("DecodeBig normal", "DecodeBig(%q) is not a normal number: %v", s, y.Bits())
			}
			if err == nil {
				c.Hold("DecodeBig", y)
				if r.Intn(4) == 0 { // the caller's to change
					own, _ := hexutil.DecodeBig(s)
					own.Sub(own.Lsh(own, uint(r.Intn(70))), big.NewInt(int64(r.Intn(9))))
				}
			}
			if v, _ := vk.Panics(func() { x = hexutil.MustDecodeUint64(s) }); (v != nil) != (len(d64) > 0) || v == nil && x != val.Uint64() {
				c.Violate("MustDecodeUint64", "MustDecodeUint64(%q) = %d, panic %v", s, x, v)
			}
			if v, _ := vk.Panics(func() { y = hexutil.MustDecodeBig(s) }); (v != nil) != (len(d256) > 0) || v == nil && y.Cmp(val) != 0 {
				c.Violate("MustDecodeBig", "MustDecodeBig(%q) = %v, panic %v", s, y, v)
			}
			// Text, JSON, GraphQL: the empty string means zero.
			t64, t256 := c64, c256
			if s == "" {
				t64, t256, val = nil, nil, new(big.Int)
			}
			type dec struct {
				what string
				cs   []class
				rng  error
				run  func() (string, error)
				old  string
			}
			var l64 hexutil.Uint64
			var lu hexutil.Uint
			oldBig := big.NewInt(77)
			var decs []dec
			add := func(what string, cs []class, rng error, run func() (string, error)) {
				decs = append(decs, dec{what, cs, rng, run, "77"})
			}
			for _, route := range []string{"text", "json", "stdjson", "graphql"} {
				if (route == "json" || route == "stdjson") && !jsonSafe(s) {
					continue
				}
				un := func(v interface{}) error {
					switch route {
					case "text":
						return v.(interface{ UnmarshalText([]byte) error }).UnmarshalText([]byte(s))
					case "json":
						return v.(json.Unmarshaler).UnmarshalJSON(jsonQuote(s))
					case "stdjson":
						return json.Unmarshal(jsonQuote(s), v)
					}
					return v.(interface{ UnmarshalGraphQL(interface{}) error }).UnmarshalGraphQL(s)
				}
				add("Uint64 "+route, t64, hexutil.ErrUint64Range, func() (string, error) { l64 = 77; err := un(&l64); return fmt.Sprint(uint64(l64)), err })
				if route != "graphql" {
					add("Uint "+route, t64, hexutil.ErrUintRange, func() (string, error) { lu = 77; err := un(&lu); return fmt.Sprint(uint(lu)), err })
				}
				add("Big "+route, t256, hexutil.ErrBig256Range, func() (string, error) {
					b := hexutil.Big(*oldBig)
					err := un(&b)
					if oldBig.Int64() != 77 {
						c.Violate("Big aliases", "decoding %q changed the old value's memory to %v", s, oldBig)
						oldBig = big.NewInt(77)
					}
					if err == nil {
						c.Hold("Big "+route, b.ToInt())
					}
					return b.ToInt().String(), err
				})
			}
			for _, d := range decs {
				got, err := d.run()
				if !errFits(err, d.cs, d.rng) {
					c.Violate(d.what+" "+csName(d.cs), "%s of %q: %v; the literal is %s", d.what, s, err, csName(d.cs))
				}
				if strings.Contains(d.what, "json") && !typeErr(err) {
					c.Violate(d.what+" type error", "%s of %q: %T %v", d.what, s, err, err)
				}
				if err == nil && got != val.String() {
					c.Violate(d.what+" value", "%s of %q gives %s", d.what, s, got)
				}
				if err != nil && got != d.old {
					c.Violate(d.what+" clobbers", "%s of %q failed with %v but changed the target to %s", d.what, s, err, got)
				}
			}
			if jsonSafe(s) {
				if h := halfQuoted(r, s); !strings.HasPrefix(h, `"`) || !strings.HasSuffix(h, `"`) || len(h) < 2 {
					l64, lu, b := hexutil.Uint64(7), hexutil.Uint(7), hexutil.Big(*big.NewInt(7))
					for _, v := range []json.Unmarshaler{&l64, &lu, &b} {
						if err := v.UnmarshalJSON([]byte(h)); err == nil || l64 != 7 || lu != 7 || b.ToInt().Int64() != 7 {
							c.Violate("half quoted", "%T.UnmarshalJSON(%s): %v", v, h, err)
						}
					}
				}
			}
			k := int32(r.Uint32() >> 1)
			if err := l64.UnmarshalGraphQL(k); err != nil || int64(l64) != int64(k) {
				c.Violate("Uint64 graphql int", "%d -> %d, %v", k, l64, err)
			}
			if r.Intn(2) == 0 {
				k = -k
			}
			var b hexutil.Big
			if err := b.UnmarshalGraphQL(k); err != nil || b.ToInt().Int64() != int64(k) {
				c.Violate("Big graphql int", "%d -> %v, %v", k, b.ToInt(), err)
			}
		})
		for _, j := range []string{"null", "1", "{}", "[]", "true", `"`, `0x1`, ``, `"0x1`, `0x1"`} {
			l64, lu, lb := hexutil.Uint64(7), hexutil.Uint(7), hexutil.Big(*big.NewInt(7))
			if e := l64.UnmarshalJSON([]byte(j)); e == nil || l64 != 7 {
				c.Violate("nonstring", "Uint64.UnmarshalJSON(%s)", j)
			}
			if e := lu.UnmarshalJSON([]byte(j)); e == nil || lu != 7 {
				c.Violate("nonstring", "Uint.UnmarshalJSON(%s)", j)
			}
			if e := lb.UnmarshalJSON([]byte(j)); e == nil || lb.ToInt().Int64() != 7 {
				c.Violate("nonstring", "Big.UnmarshalJSON(%s)", j)
			}
		}
		for _, v := range []interface{}{1, int64(1), nil, []byte{1}, 1.5, true} {
			l64, lb := hexutil.Uint64(7), hexutil.Big(*big.NewInt(7))
			if e := l64.UnmarshalGraphQL(v); e == nil || l64 != 7 {
				c.Violate("graphql type", "Uint64.UnmarshalGraphQL(%T)", v)
			}
			if e := lb.UnmarshalGraphQL(v); e == nil || lb.ToInt().Int64() != 7 {
				c.Violate("graphql type", "Big.UnmarshalGraphQL(%T)", v)
			}
		}
		if !hexutil.Uint64(1).ImplementsGraphQLType("Long") || hexutil.Uint64(1).ImplementsGraphQLType("BigInt") || !(hexutil.Big{}).ImplementsGraphQLType("BigInt") || (hexutil.Big{}).ImplementsGraphQLType("Long") {
			c.Violate("graphql name", "a number type claims a wrong GraphQL type")
		}
		// Goroutines that keep coming back to the same few numbers.
		var few []uint64
		for g := 0; g < 5; g++ {
			few = append(few, genUint(c.Rng("few", g), 64))
		}
		parallel(c, func(r *rand.Rand) {
			u := few[r.Intn(len(few))]
			b := new(big.Int).Lsh(new(big.Int).SetUint64(u), uint(r.Intn(3)*64))
			w, wb := fmt.Sprintf("0x%x", u), fmt.Sprintf("0x%x", b)
			if g := hexutil.EncodeUint64(u); g != w {
				c.ViolateAsync("parallel", "EncodeUint64(%d) = %s", u, g)
			}
			if g, err := hexutil.DecodeUint64(w); err != nil || g != u {
				c.ViolateAsync("parallel", "DecodeUint64(%s) = %d, %v", w, g, err)
			}
			if g := hexutil.EncodeBig(b); g != wb {
				c.ViolateAsync("parallel", "EncodeBig(%x) = %s", b, g)
			}
			g, err := hexutil.DecodeBig(wb)
			if err != nil || g.Cmp(b) != 0 {
				c.ViolateAsync("parallel", "DecodeBig(%s) = %v, %v", wb, g, err)
			} else {
				g.Add(g, g)
			}
			var v hexutil.Big
			if err := json.Unmarshal(jsonQuote(wb), &v); err != nil || v.ToInt().Cmp(b) != 0 {
				c.ViolateAsync("parallel", "JSON %s = %v, %v", wb, v.ToInt(), err)
			}
			for what, s := range map[string]string{"Uint64": text(hexutil.Uint64(u).MarshalText()), "Uint": text(hexutil.Uint(u).MarshalText()), "Big": text((*hexutil.Big)(new(big.Int).SetUint64(u)).MarshalText())} {
				if s != w {
					c.ViolateAsync("parallel", "%s(%d) marshals to %s", what, u, s)
				}
			}
		})
	})
}

func text(b []byte, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}
