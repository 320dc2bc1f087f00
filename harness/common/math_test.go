package common

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"

	"flychain/common"
	cmath "flychain/common/math"
	"verifharness/vk"
)

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

func genOperand(r *rand.Rand) *big.Int {
	x := genBig(r, []int{8, 63, 64, 65, 128, 255, 256, 257, 300, 520}[r.Intn(10)])
	switch r.Intn(6) {
	case 0:
		x = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(270)))
		x.Add(x, big.NewInt(int64(r.Intn(3)-1)))
	case 1:
		x = new(big.Int).Lsh(x, uint(vk.Tail(r, 60, 200, 90000)))
	}
	return x
}

// beBytes is x >= 0 as exactly n big-endian bytes, low-order ones if too long.
func beBytes(x *big.Int, n int) []byte {
	return cropPad(x.Bytes(), n)
}

func checkGlobals(c *vk.C) {
	m1 := new(big.Int).Sub(two256, big.NewInt(1))
	m63 := new(big.Int).SetUint64(1<<63 - 1)
	if cmath.MaxBig256.Cmp(m1) != 0 || cmath.MaxBig63.Cmp(m63) != 0 {
		c.Violate("limits", "MaxBig256 = %x, MaxBig63 = %x", cmath.MaxBig256, cmath.MaxBig63)
	}
	for v, w := range map[*big.Int]int64{common.Big0: 0, common.Big1: 1, common.Big2: 2, common.Big3: 3, common.Big32: 32, common.Big256: 256, common.Big257: 257} {
		if !v.IsInt64() || v.Int64() != w {
			c.Violate("constants", "Big%d = %v", w, v)
		}
	}
}

func TestC27(t *testing.T) {
	vk.Run(t, "C27", "boundary and random integers, negative and longer than 256 bits included, through every 256-bit operation, compared with math/big reduced modulo 2^256 and with their operands re-examined afterwards; distinct = operation, bit lengths and signs", func(c *vk.C) {
		checkGlobals(c)
		c.Mixed(c.N(30000, 1000000), func(i int) {
			r := c.Rng("math", i)
			x, y := genOperand(r), genOperand(r)
			if r.Intn(3) == 0 {
				x.Neg(x)
			}
			if r.Intn(5) == 0 {
				y = new(big.Int).Set(x)
			}
			kx, ky := new(big.Int).Set(x), new(big.Int).Set(y)
			op := func(what string) { c.Eval(fmt.Sprint(what, x.BitLen(), y.BitLen(), x.Sign())) }
			intact := func(what string) {
				if x.Cmp(kx) != 0 || y.Cmp(ky) != 0 {
					c.Violate(what+" changes operands", "%s changed its operands %v, %v to %v, %v", what, kx, ky, x, y)
					x.Set(kx)
					y.Set(ky)
				}
			}
			eq := func(what string, got, want *big.Int) {
				op(what)
				if got.Cmp(want) != 0 {
					c.Violate(what, "%s of %v, %v is %v, want %v", what, kx, ky, got, want)
				}
				intact(what)
			}
			max, min := kx, ky
			if kx.Cmp(ky) < 0 {
				max, min = ky, kx
			}
			eq("BigMax", cmath.BigMax(x, y), max)
			eq("BigMin", cmath.BigMin(x, y), min)

			// Modular power, any base, exponent >= 0.
			e := genBig(r, []int{1, 4, 64, 65, 256, 300, 1100}[r.Intn(7)])
			ke := new(big.Int).Set(e)
			want := new(big.Int).Exp(new(big.Int).Mod(kx, two256), e, two256)
			got := cmath.Exp(x, e)
			eq("Exp", got, want)
			if e.Cmp(ke) != 0 {
				c.Violate("Exp exponent", "Exp changed its exponent %v to %v", ke, e)
			}
			if got == x || got == e {
				c.Violate("Exp alias", "Exp returned an operand")
			}
			got.Add(got, big.NewInt(1))
			intact("writing to the result of Exp")
			c.Hold("Exp", cmath.Exp(x, e))

			// Two's complement.
			mod := new(big.Int).Mod(kx, two256)
			z := new(big.Int).Set(x)
			eq("U256", cmath.U256(z), mod)
			z.Set(kx)
			if b := cmath.U256Bytes(z); !bytes.Equal(b, beBytes(mod, 32)) {
				c.Violate("U256Bytes", "U256Bytes(%v) = %x", kx, b)
			}
			op("U256Bytes")
			km := new(big.Int).Set(mod)
			s := cmath.S256(mod)
			ws := new(big.Int).Set(km)
			if km.Bit(255) == 1 {
				ws.Sub(ws, two256)
			}
			eq("S256", s, ws)
			if mod.Cmp(km) != 0 {
				c.Violate("S256 changes operand", "S256 changed %v to %v", km, mod)
			}
			eq("U256 after S256", cmath.U256(new(big.Int).Set(s)), km)

			// Bytes and bits.
			if g, w := cmath.FirstBitSet(y), int(ky.TrailingZeroBits()); g != w {
				c.Violate("FirstBitSet", "FirstBitSet(%x) = %d", ky, g)
			}
			n := (y.BitLen()+7)/8 + r.Intn(20) - 8
			if r.Intn(4) == 0 {
				n = r.Intn(50)
			}
			if n < 0 {
				n = 0
			}
			minLen := (ky.BitLen() + 7) / 8
			wl := n
			if minLen > n {
				wl = minLen
			}
			if g := cmath.PaddedBigBytes(y, n); !bytes.Equal(g, beBytes(ky, wl)) {
				c.Violate("PaddedBigBytes", "PaddedBigBytes(%x, %d) = %x", ky, n, g)
			}
			c.Eval(fmt.Sprint("padded", minLen, n))
			buf := make([]byte, n+8)
			for j := n; j < len(buf); j++ {
				buf[j] = 0xee
			}
			cmath.ReadBits(y, buf[:n])
			if !bytes.Equal(buf[:n], beBytes(ky, n)) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xee}, 8)) {
				c.Violate("ReadBits", "ReadBits(%x) into %d bytes = %x", ky, n, buf)
			}
			pad := vk.Tail(r, 200, 40, 5000)
			if minLen > 200 && r.Intn(2) == 0 {
				pad = minLen + r.Intn(8) - 4
			}
			full := beBytes(ky, pad)
			for j := 0; j < pad+3; j++ {
				w := byte(0)
				if j < pad {
					w = full[j]
				}
				if g := cmath.Byte(y, pad, j); g != w {
					c.Violate("Byte", "Byte(%x, %d, %d) = %x, want %x", ky, pad, j, g, w)
				}
			}
			c.Hold("PaddedBigBytes", cmath.PaddedBigBytes(y, n))
			c.Hold("U256Bytes", cmath.U256Bytes(new(big.Int).Set(kx)))
			c.Hold("S256", cmath.S256(new(big.Int).Set(mod)))
			c.Hold("U256", cmath.U256(new(big.Int).Set(kx)))
			intact("reading bytes")
			a, b := int64(r.Intn(2000)-1000), int64(r.Intn(40))
			if r.Intn(4) == 0 {
				a, b = 2, int64(vk.Tail(r, 50, 600, 9000))
			}
			w := big.NewInt(1)
			for k := int64(0); k < b; k++ {
				w.Mul(w, big.NewInt(a))
			}
			if g := cmath.BigPow(a, b); g.Cmp(w) != 0 {
				c.Violate("BigPow", "BigPow(%d, %d) = %v", a, b, g)
			} else {
				c.Hold("BigPow", g)
				if r.Intn(3) == 0 { // the caller's to change
					own := cmath.BigPow(a, b)
					own.Add(own, big.NewInt(int64(1+r.Intn(5))))
					if g := cmath.BigPow(a, b); g.Cmp(w) != 0 {
						c.Violate("BigPow", "BigPow(%d, %d) = %v after the last result was changed", a, b, g)
					}
				}
			}
			c.Eval(fmt.Sprint("pow", a, b))
			c.Sample("x=%v y=%v e=%v pad=%d n=%d", kx, ky, ke, pad, n)
		})
		// Shared operands and package constants stay as they are.
		sx, sy := genOperand(c.Rng("shared", 0)), genOperand(c.Rng("shared", 1))
		we := new(big.Int).Exp(sx, sy, two256)
		parallel(c, func(r *rand.Rand) {
			if cmath.Exp(sx, sy).Cmp(we) != 0 || cmath.S256(sx) == nil || cmath.BigMax(sx, sy) == nil || cmath.FirstBitSet(sx) < 0 {
				c.ViolateAsync("parallel", "Exp of shared operands differs")
			}
			cmath.U256(genOperand(r))
		})
		checkGlobals(c)
	})
}

// parse256 is the documented syntax, sign excluded: decimal or 0x hex digits,
// empty is zero, at most 256 bits.
func parse256(s string) (*big.Int, bool) {
	if s == "" {
		return new(big.Int), true
	}
	digs, base := s, int64(10)
	if hasPrefix(s) {
		digs, base = s[2:], 16
	}
	if digs == "" {
		return nil, false
	}
	v := new(big.Int)
	for _, ch := range []byte(digs) {
		d := strings.IndexByte("0123456789abcdef", ch|0x20)
		if ch >= '0' && ch <= '9' {
			d = int(ch - '0')
		} else if ch < 'A' {
			d = -1
		}
		if d < 0 || int64(d) >= base {
			return nil, false
		}
		v.Mul(v, big.NewInt(base))
		v.Add(v, big.NewInt(int64(d)))
	}
	if v.Cmp(two256) >= 0 {
		return nil, false
	}
	return v, true
}

func TestC28(t *testing.T) {
	vk.Run(t, "C28", "integers up to 256 bits written and read back by both codecs, and literals in both bases around the limits compared with an independent parser; distinct = codec, base, digits, verdict", func(c *vk.C) {
		c.Mixed(c.N(30000, 1000000), func(i int) {
			r := c.Rng("codec", i)
			x := genBig(r, []int{1, 8, 64, 128, 255, 256}[r.Intn(6)])
			if r.Intn(8) == 0 {
				x = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(256)))
			}
			kx := new(big.Int).Set(x)
			hex, dec := fmt.Sprintf("0x%x", x), x.String()
			h, d := (*cmath.HexOrDecimal256)(x), (*cmath.Decimal256)(x)
			if g, err := h.MarshalText(); err != nil || string(g) != hex {
				c.Violate("hex marshal", "HexOrDecimal256(%v) = %s, %v", x, g, err)
			} else {
				c.Hold("HexOrDecimal256.MarshalText", g)
			}
			if g, err := d.MarshalText(); err != nil || string(g) != dec {
				c.Violate("dec marshal", "Decimal256(%v) = %s, %v", x, g, err)
			} else {
				c.Hold("Decimal256.MarshalText", g)
			}
			if g := d.String(); g != dec {
				c.Violate("dec string", "Decimal256(%v).String() = %s", x, g)
			}
			j, err := json.Marshal(struct {
				H *cmath.HexOrDecimal256
				D *cmath.Decimal256
			}{h, d})
			if err != nil || string(j) != `{"H":"`+hex+`","D":"`+dec+`"}` {
				c.Violate("json", "%v: %s %v", x, j, err)
			}
			var back struct {
				H *cmath.HexOrDecimal256
				D *cmath.Decimal256
			}
			if err := json.Unmarshal(j, &back); err != nil || (*big.Int)(back.H).Cmp(x) != 0 || (*big.Int)(back.D).Cmp(x) != 0 {
				c.Violate("json back", "%s reads back as %v %v, %v", j, (*big.Int)(back.H), (*big.Int)(back.D), err)
			}
			c.Eval("write" + fmt.Sprint(x.BitLen()))
			if x.Cmp(kx) != 0 {
				c.Violate("write changes", "encoding changed %v to %v", kx, x)
			}
			// Negative integers are written with their sign.
			neg := new(big.Int).Neg(x)
			if x.Sign() > 0 {
				if g, err := (*cmath.HexOrDecimal256)(neg).MarshalText(); err != nil || string(g) != "-"+hex {
					c.Violate("hex marshal", "HexOrDecimal256(-%v) = %s, %v", x, g, err)
				}
				g, err := (*cmath.Decimal256)(neg).MarshalText()
				if s := (*cmath.Decimal256)(neg).String(); err != nil || string(g) != "-"+dec || s != "-"+dec {
					c.Violate("dec marshal", "Decimal256(-%v) = %s and %s, %v", x, g, s, err)
				}
			}
			if neg.IsInt64() {
				if g := cmath.NewDecimal256(neg.Int64()).String(); g != neg.String() {
					c.Violate("dec string", "NewDecimal256(%v).String() = %s", neg, g)
				}
			}
			if x.IsInt64() {
				for _, k := range []int64{x.Int64(), -x.Int64()} {
					a, b := (*big.Int)(cmath.NewHexOrDecimal256(k)), (*big.Int)(cmath.NewDecimal256(k))
					if !a.IsInt64() || !b.IsInt64() || a.Int64() != k || b.Int64() != k {
						c.Violate("new", "constructors of %v give %v and %v", k, a, b)
					}
					c.Hold("constructors", a)
					c.Hold("constructors", b)
				}
				own := (*big.Int)(cmath.NewDecimal256(x.Int64()))
				own.Add(own, own)
				own = (*big.Int)(cmath.NewHexOrDecimal256(x.Int64()))
				own.Add(own, own)
			}

			// Literals.
			lit := genLit(r, 64, 65)
			switch r.Intn(4) {
			case 0: // decimal
				y := genBig(r, []int{8, 64, 256, 257, 300}[r.Intn(5)])
				if r.Intn(3) == 0 {
					y = new(big.Int).Add(two256, big.NewInt(int64(r.Intn(5)-3)))
				}
				lit = strings.Repeat("0", vk.Tail(r, 8, 5, 9000)) + y.String()
				if r.Intn(5) == 0 {
					k := r.Intn(len(lit))
					lit = lit[:k] + []string{"a", "_", " ", ".", "e", "x", "/", ":"}[r.Intn(8)] + lit[k+1:]
				}
			case 1:
				y := genBig(r, []int{255, 256, 257}[r.Intn(3)])
				lit = "0x" + strings.Repeat("0", vk.Tail(r, 8, 10, 9000)) + y.Text(16)
			}
			if strings.ContainsAny(lit, "+-") {
				return
			}
			want, valid := parse256(lit)
			c.Eval(fmt.Sprint("read", hasPrefix(lit), len(lit), valid))
			c.Sample("%q valid=%v", lit, valid)
			g, ok := cmath.ParseBig256(lit)
			if ok != valid || valid && g.Cmp(want) != 0 {
				c.Violate("parse", "ParseBig256(%q) = %v, %v; want %v, %v", lit, g, ok, want, valid)
			}
			if !ok && g != nil {
				c.Violate("parse failed value", "ParseBig256(%q) fails but returns %v", lit, g)
			}
			if ok {
				c.Hold("ParseBig256", g)
				if r.Intn(4) == 0 { // the caller's to change
					own, _ := cmath.ParseBig256(lit)
					own.Sub(own.Lsh(own, uint(r.Intn(70))), big.NewInt(int64(r.Intn(9))))
				}
			}
			for _, codec := range []string{"HexOrDecimal256", "Decimal256"} {
				for _, viaJSON := range []bool{false, true} {
					if viaJSON && !jsonSafe(lit) {
						continue
					}
					t := new(big.Int).Set(kx)
					var err error
					var tgt interface{ UnmarshalText([]byte) error } = (*cmath.HexOrDecimal256)(t)
					if codec == "Decimal256" {
						tgt = (*cmath.Decimal256)(t)
					}
					in := []byte(lit)
					if viaJSON {
						err = json.Unmarshal(jsonQuote(lit), tgt)
					} else {
						err = tgt.UnmarshalText(in)
					}
					w := kx
					if valid {
						w = want
					}
					if (err == nil) != valid || t.Cmp(w) != 0 || string(in) != lit {
						c.Violate(codec, "%s from %q: %v, value %v, want %v", codec, lit, err, t, w)
					}
					c.Hold(codec, t)
					// A plain copy of the struct shares its words.
					old := new(big.Int).Set(kx)
					cp := *old
					if codec == "Decimal256" {
						err = (*cmath.Decimal256)(&cp).UnmarshalText(in)
					} else {
						err = (*cmath.HexOrDecimal256)(&cp).UnmarshalText(in)
					}
					if (err == nil) != valid || cp.Cmp(w) != 0 {
						c.Violate(codec, "%s from %q: %v, value %v, want %v", codec, lit, err, &cp, w)
					}
					if old.Cmp(kx) != 0 {
						c.Violate(codec+" aliases", "%s from %q overwrote the old value's memory: %v, was %v", codec, lit, old, kx)
					}
					c.Eval(fmt.Sprint(codec, viaJSON, len(lit), valid))
				}
			}
		})
		if g, err := (*cmath.HexOrDecimal256)(nil).MarshalText(); err != nil || string(g) != "0x0" {
			c.Violate("nil hex", "nil HexOrDecimal256 marshals to %s, %v", g, err)
		}
		if g := (*cmath.Decimal256)(nil).String(); g != "0" {
			c.Violate("nil dec", "nil Decimal256 prints as %s", g)
		}
		parallel(c, func(r *rand.Rand) {
			x := genBig(r, 256)
			b, _ := (*cmath.HexOrDecimal256)(x).MarshalText()
			if y, ok := cmath.ParseBig256(string(b)); !ok || y.Cmp(x) != 0 {
				c.ViolateAsync("parallel", "%v", x)
			}
		})
	})
}
