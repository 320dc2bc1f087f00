package common

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"testing/quick"

	"flychain/common"
	"golang.org/x/crypto/sha3"
	"verifharness/vk"
)

// fixed is what a fixed-size value offers, for Hash and Address alike.
type fixed struct {
	name      string
	n         int
	graphql   string
	fromBytes func([]byte) interface{}
	fromBig   func(*big.Int) interface{}
	fromHex   func(string) interface{}
	bytes     func(interface{}) []byte
	big       func(interface{}) *big.Int
	zero      func() interface{} // pointer to a fresh value
	deref     func(interface{}) interface{}
	set       func(p interface{}, b []byte)
	unpref    func(b []byte) interface{} // pointer to the unprefixed type
}

type gql interface {
	ImplementsGraphQLType(string) bool
	UnmarshalGraphQL(interface{}) error
}

var fixeds = []fixed{
	{"Hash", 32, "Bytes32",
		func(b []byte) interface{} { return common.BytesToHash(b) },
		func(b *big.Int) interface{} { return common.BigToHash(b) },
		func(s string) interface{} { return common.HexToHash(s) },
		func(v interface{}) []byte { return v.(common.Hash).Bytes() },
		func(v interface{}) *big.Int { return v.(common.Hash).Big() },
		func() interface{} { return new(common.Hash) },
		func(p interface{}) interface{} { return *p.(*common.Hash) },
		func(p interface{}, b []byte) { p.(*common.Hash).SetBytes(b) },
		func(b []byte) interface{} { h := common.UnprefixedHash(common.BytesToHash(b)); return &h },
	},
	{"Address", 20, "Address",
		func(b []byte) interface{} { return common.BytesToAddress(b) },
		func(b *big.Int) interface{} { return common.BigToAddress(b) },
		func(s string) interface{} { return common.HexToAddress(s) },
		func(v interface{}) []byte { return v.(common.Address).Bytes() },
		func(v interface{}) *big.Int { return v.(common.Address).Big() },
		func() interface{} { return new(common.Address) },
		func(p interface{}) interface{} { return *p.(*common.Address) },
		func(p interface{}, b []byte) { p.(*common.Address).SetBytes(b) },
		func(b []byte) interface{} { h := common.UnprefixedAddress(common.BytesToAddress(b)); return &h },
	},
}

// rawBytes reads the array behind a value or pointer without its methods.
func rawBytes(v interface{}) []byte {
	rv := reflect.Indirect(reflect.ValueOf(v))
	out := make([]byte, rv.Len())
	reflect.Copy(reflect.ValueOf(out), rv)
	return out
}

// cropPad is the documented conversion: cropped or zero-padded on the left.
func cropPad(b []byte, n int) []byte {
	out := make([]byte, n)
	for i := 1; i <= n && i <= len(b); i++ {
		out[n-i] = b[len(b)-i]
	}
	return out
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	switch r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = 0
		}
		if n > 0 && r.Intn(2) == 0 {
			b[r.Intn(n)] = 1
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := 0; i < n && i < r.Intn(n+1); i++ {
			b[i] = 0
		}
	case 3:
		for i := n - 1; i >= 0 && i > n-r.Intn(n+1); i-- {
			b[i] = 0
		}
	}
	return b
}

func TestC24(t *testing.T) {
	vk.Run(t, "C24", "values of every length converted to hashes and addresses by every route, encoded and decoded through text, JSON (fields, map keys), SQL, GraphQL and format verbs; distinct = type, route and input length or verb", func(c *vk.C) {
		c.Mixed(c.N(20000, 600000), func(i int) {
			r := c.Rng("fixed", i)
			for _, f := range fixeds {
				n := vk.Tail(r, 100, 2*f.n+4, 30000)
				if r.Intn(3) == 0 {
					n = f.n + r.Intn(3) - 1
				}
				b := genBytes(r, n)
				keep := append([]byte{}, b...)
				want := cropPad(b, f.n)
				hx := hex.EncodeToString(want)
				key := func(s string) { c.Eval(fmt.Sprint(f.name, s, n)) }
				got := func(what string, v interface{}) {
					key(what)
					if !bytes.Equal(rawBytes(v), want) {
						c.Violate(f.name+" "+what, "%s of %x gives %x, want %x", what, b, rawBytes(v), want)
					}
				}
				v := f.fromBytes(b)
				got("from bytes", v)
				for j := range b {
					b[j] ^= 0xa5
				}
				got("from bytes, input changed afterwards", v)
				copy(b, keep)
				p := f.zero()
				f.set(p, b)
				got("SetBytes", p)
				if n >= f.n {
					r.Read(b[:0])
					q := f.zero()
					f.set(q, genBytes(r, f.n))
					f.set(q, b)
					got("SetBytes over an old value", q)
				}
				if !bytes.Equal(b, keep) {
					c.Violate("input changed", "%s conversion changed its input", f.name)
				}
				bi := new(big.Int).SetBytes(b)
				bk := new(big.Int).Set(bi)
				got("from big", f.fromBig(bi))
				if bi.Cmp(bk) != 0 {
					c.Violate("big changed", "%s conversion changed the integer", f.name)
				}
				s := hex.EncodeToString(b)
				if r.Intn(3) == 0 {
					s = strings.TrimPrefix(s, "0")
				}
				if r.Intn(3) == 0 {
					s = strings.ToUpper(s)
				}
				s = []string{"", "0x", "0X"}[r.Intn(3)] + s
				got("from hex", f.fromHex(s))
				c.Sample("%s %s -> %s", f.name, s, hx)

				// Back out again.
				c.Hold(f.name+".Bytes", f.bytes(v))
				c.Hold(f.name+".Big", f.big(v))
				c.Hold(f.name+".String", v.(fmt.Stringer).String())
				if g := f.bytes(v); !bytes.Equal(g, want) {
					c.Violate("Bytes", "%s(%x).Bytes() = %x", f.name, want, g)
				} else {
					g[0] ^= 1
					got("value, after its Bytes were changed", v)
				}
				if g := f.big(v); g.Cmp(new(big.Int).SetBytes(want)) != 0 {
					c.Violate("Big", "%s(%x).Big() = %x", f.name, want, g)
				}
				if g := v.(fmt.Stringer).String(); strings.ToLower(g) != "0x"+hx {
					c.Violate("String", "%s(%x).String() = %s", f.name, want, g)
				}
				// Encodings and their inverses.
				if g, err := v.(encoding.TextMarshaler).MarshalText(); err != nil || string(g) != "0x"+hx {
					c.Violate("MarshalText", "%s(%x).MarshalText() = %s, %v", f.name, want, g, err)
				} else {
					c.Hold(f.name+".MarshalText", g)
				}
				j, err := json.Marshal(v)
				if err != nil || string(j) != `"0x`+hx+`"` {
					c.Violate("json", "%s(%x) marshals to %s, %v", f.name, want, j, err)
				}
				q := f.zero()
				if err := json.Unmarshal(j, q); err != nil {
					c.Violate("json back", "%s: %v", j, err)
				}
				got("JSON round trip", q)
				m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(v), reflect.TypeOf(0)))
				m.SetMapIndex(reflect.ValueOf(v), reflect.ValueOf(7))
				j, err = json.Marshal(m.Interface())
				if err != nil || string(j) != `{"0x`+hx+`":7}` {
					c.Violate("map key", "%s(%x) as map key marshals to %s, %v", f.name, want, j, err)
				}
				mp := reflect.New(m.Type())
				if err := json.Unmarshal(j, mp.Interface()); err != nil || !reflect.DeepEqual(mp.Elem().Interface(), m.Interface()) {
					c.Violate("map key back", "%s read back as %v, %v", j, mp.Elem(), err)
				}
				key("map key")
				up := f.unpref(want)
				got("unprefixed", up)
				if g, err := up.(encoding.TextMarshaler).MarshalText(); err != nil || string(g) != hx {
					c.Violate("unprefixed text", "unprefixed %s(%x) = %s, %v", f.name, want, g, err)
				}
				sv, err := v.(driver.Valuer).Value()
				sb, okb := sv.([]byte)
				if err != nil || !okb || !bytes.Equal(sb, want) {
					c.Violate("Value", "%s(%x).Value() = %v, %v", f.name, want, sv, err)
				}
				q = f.zero()
				if err := q.(sql.Scanner).Scan(sv); err != nil {
					c.Violate("Scan", "%s.Scan(own Value): %v", f.name, err)
				}
				if sv2, _ := v.(driver.Valuer).Value(); okb {
					c.Hold(f.name+".Value", sv2)
				}
				if okb && len(sb) > 0 {
					sb[0] ^= 1
				}
				got("SQL round trip", q)

				// Verbs.
				verb := []string{"%v", "%s", "%x", "%X", "%#x", "%#X", "%q", "%d", "%t", "%e"}[r.Intn(10)]
				g := fmt.Sprintf(verb, v)
				var w string
				switch verb {
				case "%v", "%s":
					g, w = strings.ToLower(g), "0x"+hx
				case "%x":
					w = hx
				case "%X":
					w = strings.ToUpper(hx)
				case "%#x":
					w = "0x" + hx
				case "%#X":
					w = "0X" + strings.ToUpper(hx)
				case "%q":
					g, w = strings.ToLower(g), `"0x`+hx+`"`
				case "%d":
					w = strings.Trim(fmt.Sprint(want), "\n")
				default:
					w = "%!" + verb[1:] + "(" + strings.ToLower(f.name) + "=" + hx + ")"
				}
				key(verb)
				if g != w {
					c.Violate("verb "+f.name+verb, "Sprintf(%q, %s %x) = %s, want %s", verb, f.name, want, g, w)
				}
				if h, okh := v.(common.Hash); okh {
					if g := h.TerminalString(); g != hx[:6]+".."+hx[58:] {
						c.Violate("terminal", "TerminalString of %s is %s", hx, g)
					}
				}
				if a, oka := v.(common.Address); oka {
					h := a.Hash()
					if !bytes.Equal(h[:], cropPad(want, 32)) {
						c.Violate("address hash", "Address(%x).Hash() = %x", want, h)
					}
				}

				// Malformed and well-formed literals into an old value.
				lit := genLit(r, 2*f.n)
				cs := bytesClasses(lit, true)
				if lit == "" {
					cs = []class{empty}
				}
				old := genBytes(r, f.n)
				fill := func() interface{} { p := f.zero(); f.set(p, old); return p }
				check := func(what string, q interface{}, err error, valid bool, val func() []byte) {
					c.Eval(fmt.Sprint(f.name, what, csName(cs), len(lit), valid))
					if (err == nil) != valid {
						c.Violate(f.name+" "+what, "%s %s of %q: %v", f.name, what, lit, err)
						return
					}
					w := old
					if valid {
						w = val()
					}
					if !bytes.Equal(rawBytes(q), w) {
						c.Violate(f.name+" "+what+" value", "%s %s of %q (err %v) left %x, want %x", f.name, what, lit, err, rawBytes(q), w)
					}
				}
				valid := len(cs) == 0 && len(lit) == 2+2*f.n
				val := func() []byte { return decodeHex(lit[2:]) }
				q = fill()
				check("UnmarshalText", q, q.(encoding.TextUnmarshaler).UnmarshalText([]byte(lit)), valid, val)
				q = fill()
				check("UnmarshalGraphQL", q, q.(gql).UnmarshalGraphQL(lit), valid, val)
				if jsonSafe(lit) {
					q = fill()
					check("UnmarshalJSON", q, json.Unmarshal(jsonQuote(lit), q), valid, val)
				}
				ucs := bytesClasses(lit, false)
				uval := lit
				if hasPrefix(lit) {
					uval = lit[2:]
				}
				up = f.unpref(old)
				check("unprefixed UnmarshalText", up, up.(encoding.TextUnmarshaler).UnmarshalText([]byte(lit)), len(ucs) == 0 && len(uval) == 2*f.n, func() []byte { return decodeHex(uval) })
				nn := f.n + r.Intn(3) - 1
				src := genBytes(r, nn)
				q = fill()
				err = q.(sql.Scanner).Scan(src)
				check("Scan", q, err, nn == f.n, func() []byte { return src })
				for _, bad := range []interface{}{nil, 7, "0x" + hx, want[:0], []int{1}} {
					q = fill()
					if err := q.(sql.Scanner).Scan(bad); err == nil || !bytes.Equal(rawBytes(q), old) {
						c.Violate("scan bad", "%s.Scan(%T) = %v, value %x, was %x", f.name, bad, err, rawBytes(q), old)
					}
					if _, isS := bad.(string); !isS {
						if err := q.(gql).UnmarshalGraphQL(bad); err == nil || !bytes.Equal(rawBytes(q), old) {
							c.Violate("graphql bad", "%s.UnmarshalGraphQL(%T) = %v", f.name, bad, err)
						}
					}
				}
				for _, bad := range []string{"null", "0", "[]", "{}", "true"} {
					q = fill()
					if err := json.Unmarshal([]byte(bad), q); err == nil || !bytes.Equal(rawBytes(q), old) {
						c.Violate("json bad", "%s from JSON %s = %v, value %x, was %x", f.name, bad, err, rawBytes(q), old)
					}
				}
				if g := q.(gql); !g.ImplementsGraphQLType(f.graphql) || g.ImplementsGraphQLType(f.graphql+"x") || g.ImplementsGraphQLType("Bytes") {
					c.Violate("graphql name", "%s claims a wrong GraphQL type", f.name)
				}
			}
		})
		// Values made for property tests.
		c.Mixed(c.N(300, 3000), func(i int) {
			r := c.Rng("generate", i)
			for _, f := range fixeds {
				c.NoPanic(f.name+".Generate", func() {
					v, ok := quick.Value(reflect.TypeOf(f.zero()).Elem(), r)
					if !ok || v.Type() != reflect.TypeOf(f.zero()).Elem() {
						c.Violate("generate", "testing/quick makes no %s: %v", f.name, v)
					}
				})
			}
		})
		parallel(c, func(r *rand.Rand) {
			a := common.BytesToAddress(genBytes(r, 20))
			h := common.BytesToHash(genBytes(r, 32))
			if common.HexToAddress(a.Hex()) != a || common.HexToHash(h.Hex()) != h {
				c.ViolateAsync("parallel", "%v %v", a, h)
			}
		})
	})
}

// eip55 is the checksummed form, straight from the EIP.
func eip55(b []byte) string {
	lower := hex.EncodeToString(b)
	k := sha3.NewLegacyKeccak256()
	k.Write([]byte(lower))
	sum := hex.EncodeToString(k.Sum(nil))
	out := ""
	for i := range lower {
		ch := lower[i : i+1]
		if sum[i] >= '8' {
			ch = strings.ToUpper(ch)
		}
		out += ch
	}
	return "0x" + out
}

func TestC25(t *testing.T) {
	vk.Run(t, "C25", "addresses printed by every route and compared with an independent EIP-55 implementation; literals with every casing, prefix and defect classified and parsed as mixed-case addresses; distinct = route, checksum positions and literal class", func(c *vk.C) {
		for _, s := range []string{ // vectors of the EIP
			"0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed", "0xfB6916095ca1df60bB79Ce92cE3Ea74c37c5d359",
			"0xdbF03B407c01E7cD3CBea99509d93f8DDDC8C6FB", "0xD1220A0cf47c7B9Be7A2E6BA89F429762e7b9aDb",
			"0x52908400098527886E0F7030069857D2E4169EE7", "0xde709f2102306220921060314715629080e2fb77",
		} {
			if eip55(decodeHex(s[2:])) != s {
				c.HarnessError("reference checksum wrong for %s", s)
			}
			if g := common.HexToAddress(strings.ToLower(s)).Hex(); g != s {
				c.Violate("vector", "checksummed %s as %s", s, g)
			}
		}
		c.Mixed(c.N(25000, 800000), func(i int) {
			r := c.Rng("addr", i)
			b := genBytes(r, 20)
			if r.Intn(4) == 0 { // letters only
				for j := range b {
					b[j] = byte(0xa+r.Intn(6))<<4 | byte(0xa+r.Intn(6))
				}
			}
			a := common.BytesToAddress(b)
			want := eip55(b)
			c.Sample("%s", want)
			for what, g := range map[string]string{
				"Hex": a.Hex(), "String": a.String(), "%v": fmt.Sprintf("%v", a), "%s": fmt.Sprintf("%s", a), "%q": strings.Trim(fmt.Sprintf("%q", a), `"`),
				"%v of pointer": fmt.Sprintf("%v", &a),
			} {
				if g != want {
					c.Violate("checksum "+what, "%s of %x gives %s, want %s", what, b, g, want)
				}
			}
			if !bytes.Equal(a[:], b) {
				c.Violate("changed", "printing changed the address %x", b)
			}
			c.Eval("hex" + want)
			c.Hold("Hex", a.Hex())
			m := common.NewMixedcaseAddress(a)
			if m.Original() != want || !m.ValidChecksum() || m.Address() != a || m.String() != want+" [chksum ok]" {
				c.Violate("new", "NewMixedcaseAddress(%s): %s", want, m.String())
			}

			// Literals.
			lit := genLit(r, 40)
			switch r.Intn(6) {
			case 0:
				lit = want
			case 1: // one letter in the wrong case
				bs := []byte(want)
				for j, k := 2+r.Intn(40), 0; k < 40; j, k = 2+(j-1)%40, k+1 {
					if bs[j] > '9' {
						bs[j] ^= 0x20
						break
					}
				}
				lit = string(bs)
			case 2:
				lit = []string{strings.ToLower(want), "0x" + strings.ToUpper(want[2:]), "0X" + want[2:], want[2:]}[r.Intn(4)]
			}
			digs := lit
			if hasPrefix(lit) {
				digs = lit[2:]
			}
			isAddr := len(digs) == 40 && allHex(digs)
			c.Eval(fmt.Sprint("lit", hasPrefix(lit), len(digs), allHex(digs), lit == want))
			if g := common.IsHexAddress(lit); g != isAddr {
				c.Violate("IsHexAddress", "IsHexAddress(%q) = %v", lit, g)
			}
			test := func(what string, m *common.MixedcaseAddress) {
				val := decodeHex(digs)
				sum := eip55(val)
				if m.Address() != common.BytesToAddress(val) {
					c.Violate(what+" address", "%s %q has address %x", what, lit, m.Address())
				}
				if m.Original() != lit {
					c.Violate(what+" original", "%s %q has original %q", what, lit, m.Original())
				}
				valid := lit == sum
				if m.ValidChecksum() != valid {
					c.Violate(what+" checksum", "%s %q: ValidChecksum %v, checksummed form %s", what, lit, m.ValidChecksum(), sum)
				}
				ws := lit + " [chksum INVALID]"
				if valid {
					ws = lit + " [chksum ok]"
				}
				if m.String() != ws {
					c.Violate(what+" string", "%s %q prints as %q", what, lit, m.String())
				}
				j, err := json.Marshal(m)
				if err != nil || string(j) != `"0x`+digs+`"` {
					c.Violate(what+" marshal", "%s %q marshals to %s, %v", what, lit, j, err)
				}
				var back common.MixedcaseAddress
				if err := json.Unmarshal(j, &back); err != nil || back.Address() != m.Address() || back.Original() != "0x"+digs {
					c.Violate(what+" round trip", "%s %q marshals to %s and back to %s, %v", what, lit, j, back.String(), err)
				}
			}
			mp, err := common.NewMixedcaseAddressFromString(lit)
			if (err == nil) != isAddr || (mp != nil) != isAddr {
				c.Violate("from string", "NewMixedcaseAddressFromString(%q) = %v, %v", lit, mp, err)
			} else if isAddr {
				test("parsed", mp)
			}
			if jsonSafe(lit) {
				m := common.NewMixedcaseAddress(a)
				err := json.Unmarshal(jsonQuote(lit), &m)
				if (err == nil) != (isAddr && hasPrefix(lit)) {
					c.Violate("from json", "MixedcaseAddress from JSON %q: %v", lit, err)
				} else if err == nil {
					test("read", &m)
				} else if m.Address() != a || m.Original() != want {
					c.Violate("failed json", "failing to read %q changed the value to %s", lit, m.String())
				}
			}
		})
		parallel(c, func(r *rand.Rand) {
			b := genBytes(r, 20)
			if g := common.BytesToAddress(b).Hex(); g != eip55(b) {
				c.ViolateAsync("parallel", "%x -> %s", b, g)
			}
		})
	})
}
