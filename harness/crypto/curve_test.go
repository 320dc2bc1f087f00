package crypto

import (
	"bytes"
	crand "crypto/rand"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"flychain/crypto"
	"flychain/crypto/randentropy"
	"verifharness/vk"
)

// point is affine; inf marks the identity.
type point struct {
	x, y *big.Int
	inf  bool
}

type refCurve struct {
	p, b *big.Int
}

func (rc refCurve) on(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	rr := new(big.Int).Exp(x, big.NewInt(3), nil)
	l.Sub(l, rr)
	l.Sub(l, rc.b)
	return l.Mod(l, rc.p).Sign() == 0
}

// add is the chord-and-tangent law.
func (rc refCurve) add(a, b point) point {
	if a.inf {
		return b
	}
	if b.inf {
		return a
	}
	num, den := new(big.Int), new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		if new(big.Int).Mod(den.Add(a.y, b.y), rc.p).Sign() == 0 {
			return point{inf: true}
		}
		num.Mul(a.x, a.x)
		num.Mul(num, big.NewInt(3))
		den.Lsh(a.y, 1)
	} else {
		num.Sub(b.y, a.y)
		den.Sub(b.x, a.x)
	}
	den.Mod(den, rc.p)
	s := den.ModInverse(den, rc.p)
	s.Mul(s, num)
	x := new(big.Int).Mul(s, s)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, rc.p)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, s)
	y.Sub(y, a.y)
	y.Mod(y, rc.p)
	return point{x: x, y: y}
}

func (rc refCurve) mul(a point, k *big.Int) point {
	out := point{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		out = rc.add(out, out)
		if k.Bit(i) == 1 {
			out = rc.add(out, a)
		}
	}
	return out
}

func (a point) String() string {
	if a.inf {
		return "infinity"
	}
	return fmt.Sprintf("(%x,%x)", a.x, a.y)
}

func (a point) xy() (*big.Int, *big.Int) {
	if a.inf {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(a.x), new(big.Int).Set(a.y)
}

// is: do the coordinates, nil or (0,0) for the identity, spell the point?
func (a point) is(x, y *big.Int, nilOK bool) bool {
	if x == nil || y == nil {
		return nilOK && x == nil && y == nil && a.inf
	}
	if a.inf {
		return x.Sign() == 0 && y.Sign() == 0
	}
	return x.Cmp(a.x) == 0 && y.Cmp(a.y) == 0
}

type spec struct {
	name                 string
	get                  func() *crypto.BitCurve
	bits                 int
	p, n, b, gx, gy      *big.Int
	beta, lambda         *big.Int // cube roots of one: lambda (x,y) = (beta x, y)
	ps, ns, bs, gxs, gys string
}

// The constants of SEC 2.
var specs = []*spec{
	{name: "S160", get: crypto.S160, bits: 160, ps: "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFAC73", ns: "0100000000000000000001B8FA16DFAB9ACA16B6B3", bs: "7", gxs: "3B4C382CE37AA192A4019E763036F4F5DD4D7EBB", gys: "938CF935318FDCED6BC28286531733C3F03C4FEE"},
	{name: "S192", get: crypto.S192, bits: 192, ps: "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFEE37", ns: "FFFFFFFFFFFFFFFFFFFFFFFE26F2FC170F69466A74DEFD8D", bs: "3", gxs: "DB4FF10EC057E9AE26B07D0280B7F4341DA5D1B1EAE06C7D", gys: "9B2F2F6D9C5628A7844163D015BE86344082AA88D95E2F9D"},
	{name: "S224", get: crypto.S224, bits: 224, ps: "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFE56D", ns: "010000000000000000000000000001DCE8D2EC6184CAF0A971769FB1F7", bs: "5", gxs: "A1455B334DF099DF30FC28A169A467E9E47075A90F7E650EB6B7A45C", gys: "7E089FED7FBA344282CAFBD6F7E319F7C0B0BD59E2CA4BDB556D61A5"},
	{name: "S256", get: crypto.S256, bits: 256, ps: "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", ns: "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", bs: "7", gxs: "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", gys: "483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"},
}

func (s *spec) rc() refCurve { return refCurve{s.p, s.b} }
func (s *spec) g() point     { return point{x: s.gx, y: s.gy} }

// cubeRoot is a cube root of one other than one.
func cubeRoot(p *big.Int) *big.Int {
	e := new(big.Int).Sub(p, big.NewInt(1))
	e.Div(e, big.NewInt(3))
	for g := int64(2); ; g++ {
		if v := new(big.Int).Exp(big.NewInt(g), e, p); v.Cmp(big.NewInt(1)) != 0 {
			return v
		}
	}
}

// lift finds a point with the given x or the next ones up.
func (s *spec) lift(x *big.Int) point {
	x = new(big.Int).Mod(x, s.p)
	for {
		v := new(big.Int).Exp(x, big.NewInt(3), s.p)
		v.Add(v, s.b).Mod(v, s.p)
		if y := new(big.Int).ModSqrt(v, s.p); y != nil {
			return point{x: x, y: y}
		}
		x.Add(x, big.NewInt(1)).Mod(x, s.p)
	}
}

func loadSpecs(c *vk.C) {
	for _, s := range specs {
		h := func(v string) *big.Int { x, _ := new(big.Int).SetString(v, 16); return x }
		s.p, s.n, s.b, s.gx, s.gy = h(s.ps), h(s.ns), h(s.bs), h(s.gxs), h(s.gys)
		if !s.p.ProbablyPrime(20) || !s.n.ProbablyPrime(20) || !s.rc().on(s.gx, s.gy) || !s.rc().mul(s.g(), s.n).inf {
			c.HarnessError("reference parameters of %s are inconsistent", s.name)
		}
		s.beta, s.lambda = cubeRoot(s.p), cubeRoot(s.n)
		if q := s.rc().mul(s.g(), s.lambda); q.y.Cmp(s.gy) != 0 {
			c.HarnessError("cube root of %s", s.name)
		} else if q.x.Cmp(new(big.Int).Mod(new(big.Int).Mul(s.gx, s.beta), s.p)) != 0 {
			s.beta.Mul(s.beta, s.beta).Mod(s.beta, s.p)
		}
	}
}

// same compares numbers of which the first may be missing.
func same(v, w *big.Int) bool { return v != nil && v.Cmp(w) == 0 }

// checkParams: curves are shared; nothing may alter them.
func checkParams(c *vk.C) (ok bool) {
	before := c.Violations()
	for _, s := range specs {
		bc := s.get()
		if bc == nil {
			c.Violate("nil "+s.name, "%s() is nil", s.name)
			continue
		}
		if !same(bc.P, s.p) || !same(bc.N, s.n) || !same(bc.B, s.b) || !same(bc.Gx, s.gx) || !same(bc.Gy, s.gy) || bc.BitSize != s.bits {
			c.Violate("params "+s.name, "%s is P=%x N=%x B=%x G=(%x,%x) %d bits", s.name, bc.P, bc.N, bc.B, bc.Gx, bc.Gy, bc.BitSize)
		}
		p := bc.Params()
		if !same(p.P, s.p) || !same(p.N, s.n) || !same(p.B, s.b) || !same(p.Gx, s.gx) || !same(p.Gy, s.gy) || p.BitSize != s.bits {
			c.Violate("Params "+s.name, "%s.Params() = %+v", s.name, p)
		}
		if s.get() != bc {
			c.Violate("identity "+s.name, "%s() returns different curves", s.name)
		}
	}
	return c.Violations() == before
}

func firstUse(c *vk.C) bool {
	before := c.Violations()
	// First use by many goroutines at once.
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			s := specs[g%4]
			bc := s.get()
			if bc == nil || !same(bc.P, s.p) || !same(bc.Gx, s.gx) || !same(bc.Gy, s.gy) || !same(bc.B, s.b) || bc.BitSize != s.bits || !bc.IsOnCurve(bc.Gx, bc.Gy) {
				c.ViolateAsync("first use", "%s() is not ready on concurrent first use", s.name)
			}
		}()
	}
	close(start)
	wg.Wait()
	return c.Violations() == before
}

// each runs n cases on several goroutines.
func each(c *vk.C, label string, n int, fn func(r *rand.Rand, i int)) {
	var wg sync.WaitGroup
	var next atomic.Int64
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				fn(c.Rng(label, i), i)
			}
		}()
	}
	wg.Wait()
}

// sound runs fn; a panic is a violation.
func sound(c *vk.C, desc string, fn func()) bool {
	v, st := vk.Panics(fn)
	if v != nil {
		if !vk.PanicInLibrary(st) {
			panic(fmt.Sprint(v, st))
		}
		c.ViolateAsync(fmt.Sprint("panic ", v), "%s panicked: %v\n%s", desc, v, st)
	}
	return v == nil
}

func genScalar(r *rand.Rand, s *spec) *big.Int {
	k := new(big.Int).Rand(r, s.n)
	switch r.Intn(9) {
	case 5: // on the way to k the multiple meets the point, its opposite or its images
		k.Set([]*big.Int{s.n, s.lambda, new(big.Int).Sub(new(big.Int).Sub(s.n, s.lambda), big.NewInt(1))}[r.Intn(3)])
		if k.Bit(0) == 1 {
			k.Add(k, s.n)
		}
		k.Add(k, big.NewInt(int64(r.Intn(7)-3)))
		j := uint(r.Intn(12))
		k.Lsh(k, j)
		k.Add(k, big.NewInt(r.Int63n(1<<j)))
	case 0:
		k.SetInt64(int64(r.Intn(20)))
	case 1:
		k.Mul(s.n, big.NewInt(int64(r.Intn(3))))
		k.Add(k, big.NewInt(int64(r.Intn(7)-3)))
		k.Abs(k)
	case 2:
		k.Lsh(big.NewInt(1), uint(r.Intn(s.bits+8)))
		k.Sub(k, big.NewInt(int64(r.Intn(2))))
	case 3:
		k.Rsh(k, uint(r.Intn(s.bits)))
	case 4:
		k.Rsh(s.n, 1)
		k.Add(k, big.NewInt(int64(r.Intn(3))))
	}
	return k
}

func TestC32(t *testing.T) {
	vk.Run(t, "C32", "points of every relation (equal, opposite, identity, multiples) added, doubled and multiplied on the four curves, compared with an affine chord-and-tangent reference; distinct = curve, operation, relation and scalar length", func(c *vk.C) {
		loadSpecs(c)
		if !firstUse(c) || !checkParams(c) {
			return
		}
		each(c, "curve", c.N(2400, 40000), func(r *rand.Rand, i int) {
			s := specs[i%4]
			rc, bc := s.rc(), s.get()
			mk := func() point {
				k := big.NewInt(int64(r.Intn(40)))
				if r.Intn(3) > 0 {
					k.Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(24))))
				}
				q := rc.mul(s.g(), k)
				switch r.Intn(8) {
				case 0: // coordinates that are short, or full of zeros or ones
					q = s.lift(new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(s.bits)))))
				case 1:
					q = s.lift(new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(255))), uint(r.Intn(s.bits-8))))
				case 2:
					q = s.lift(new(big.Int).Sub(s.p, big.NewInt(int64(1+r.Intn(1000)))))
				case 3:
					q = s.lift(big.NewInt(int64(r.Intn(3))))
				}
				if !q.inf && r.Intn(4) == 0 {
					q = point{x: q.x, y: new(big.Int).Sub(s.p, q.y)}
				}
				return q
			}
			// Curve membership.
			a := mk()
			x, y := a.xy()
			if !a.inf && !bc.IsOnCurve(x, y) {
				c.ViolateAsync("on curve", "%s: %v is said to be off the curve", s.name, a)
			}
			ox, oy := new(big.Int).Rand(r, s.p), new(big.Int).Rand(r, s.p)
			if r.Intn(2) == 0 && !a.inf {
				ox, oy = new(big.Int).Set(a.x), new(big.Int).Add(a.y, big.NewInt(int64(1+r.Intn(3))))
			}
			if g, w := bc.IsOnCurve(ox, oy), rc.on(ox, oy); g != w {
				c.ViolateAsync("off curve", "%s: IsOnCurve(%x,%x) = %v", s.name, ox, oy, g)
			}

			b := mk()
			rel := r.Intn(6)
			switch rel {
			case 4, 5: // the same y, or opposite ones, at another x
				b = a
				if !a.inf {
					b.x = new(big.Int).Mul(b.x, s.beta)
					if r.Intn(2) == 0 {
						b.x.Mul(b.x, s.beta)
					}
					b.x.Mod(b.x, s.p)
					if rel == 5 {
						b.y = new(big.Int).Sub(s.p, a.y)
					}
				}
			case 0:
				b = a
			case 1:
				b = a
				if !a.inf {
					b = point{x: a.x, y: new(big.Int).Sub(s.p, a.y)}
				}
			}
			ax, ay := a.xy()
			bx, by := b.xy()
			args := []*big.Int{ax, ay, bx, by}
			if rel == 0 && r.Intn(2) == 0 { // the very same variables
				bx, by = ax, ay
			}
			var keep []*big.Int
			for _, v := range args {
				keep = append(keep, new(big.Int).Set(v))
			}
			intact := func(what string) {
				for j, v := range args {
					if v.Cmp(keep[j]) != 0 {
						c.ViolateAsync(what+" changes operands", "%s: %s changed its operand %x to %x", s.name, what, keep[j], v)
						v.Set(keep[j])
					}
				}
			}
			// result compares, then scribbles on the result: operands and the
			// curve must not notice.
			result := func(what string, x, y *big.Int, want point, nilOK bool) {
				if !want.is(x, y, nilOK) {
					c.ViolateAsync(s.name+" "+what, "%s: %s of %v and %v is (%x,%x), want %v", s.name, what, a, b, x, y, want)
				}
				intact(what)
				if x != nil && y != nil {
					x.Add(x, big.NewInt(1))
					y.SetInt64(3)
				}
				intact("writing to the result of " + what)
			}
			c.Sample("%s %v + %v", s.name, a, b)
			sound(c, fmt.Sprintf("%s: adding %v and %v", s.name, a, b), func() {
				x, y := bc.Add(ax, ay, bx, by)
				result("Add", x, y, rc.add(a, b), false)
				x, y = bc.Double(ax, ay)
				result("Double", x, y, rc.add(a, a), false)
			})
			c.Eval(fmt.Sprint("add", s.name, rel, a.inf, b.inf, ax.BitLen(), bx.BitLen()))

			// Numbers that are not reduced, or no coordinates at all, are not
			// changed either.
			if r.Intn(3) == 0 {
				odd := func(v *big.Int) *big.Int {
					switch r.Intn(4) {
					case 0:
						return new(big.Int).Add(v, s.p)
					case 1:
						return new(big.Int).Sub(v, s.p)
					case 2:
						return new(big.Int).Add(v, new(big.Int).Mul(s.p, big.NewInt(int64(r.Intn(1000)))))
					}
					return new(big.Int).Set(v)
				}
				o := []*big.Int{odd(ax), odd(ay), odd(bx), odd(by)}
				before := fmt.Sprint(o)
				kb := []byte{byte(r.Intn(256)), byte(r.Intn(256))}
				for what, fn := range map[string]func(){
					"IsOnCurve":  func() { bc.IsOnCurve(o[0], o[1]) },
					"Add":        func() { bc.Add(o[0], o[1], o[2], o[3]) },
					"Double":     func() { bc.Double(o[0], o[1]) },
					"ScalarMult": func() { bc.ScalarMult(o[0], o[1], kb) },
				} {
					vk.Panics(fn)
					if after := fmt.Sprint(o); after != before {
						c.ViolateAsync(what+" changes numbers", "%s: %s changed its operands from %s to %s", s.name, what, before, after)
						break
					}
				}
			}

			// Multiples, the scalar in any number of bytes.
			if a.inf {
				a = s.g()
				ax, ay = a.xy()
				args[0], args[1], keep[0], keep[1] = ax, ay, new(big.Int).Set(ax), new(big.Int).Set(ay)
			}
			if r.Intn(10) == 0 {
				a = s.g()
				ax, ay = bc.Gx, bc.Gy
			}
			k := genScalar(r, s)
			kb := k.Bytes()
			if r.Intn(20) == 0 { // longer than any field element
				kb = make([]byte, 1+r.Intn(300))
				r.Read(kb)
				k.Mod(new(big.Int).SetBytes(kb), s.n)
			}
			if r.Intn(2) == 0 {
				pad := r.Intn(4)
				if r.Intn(4) == 0 {
					pad = r.Intn(120)
				}
				kb = append(make([]byte, pad), kb...)
			}
			kk := append([]byte{}, kb...)
			want := rc.mul(a, k)
			sound(c, fmt.Sprintf("%s: %x times %v", s.name, kb, a), func() {
				x, y := bc.ScalarMult(ax, ay, kb)
				if !want.is(x, y, true) {
					c.ViolateAsync(s.name+" ScalarMult", "%s: %x times %v is (%x,%x), want %v", s.name, kb, a, x, y, want)
				}
				if x != nil {
					intact("ScalarMult")
					if x == bc.Gx || x == ax || y == ay {
						c.ViolateAsync("ScalarMult alias", "%s: ScalarMult returned its operand", s.name)
					}
				}
				if r.Intn(2) == 0 {
					x, y = bc.ScalarBaseMult(kb)
					if w := rc.mul(s.g(), k); !w.is(x, y, true) {
						c.ViolateAsync(s.name+" ScalarBaseMult", "%s: %x times the base point is (%x,%x), want %v", s.name, kb, x, y, w)
					}
				}
			})
			if !bytes.Equal(kb, kk) {
				c.ViolateAsync("scalar changed", "%s: ScalarMult changed its scalar", s.name)
			}
			c.Eval(fmt.Sprint("mul", s.name, k.BitLen(), len(kb), want.inf))
		})
		// The curves are shared by everyone.
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			r := c.Rng("par", g)
			go func() {
				defer wg.Done()
				for i := 0; i < c.N(15, 300); i++ {
					s := specs[r.Intn(4)]
					k := genScalar(r, s)
					x, y := s.get().ScalarBaseMult(k.Bytes())
					if w := s.rc().mul(s.g(), k); !w.is(x, y, true) {
						c.ViolateAsync("parallel", "%s: %x times the base point is (%x,%x)", s.name, k, x, y)
					}
					c.Eval(fmt.Sprint("par", s.name, k.BitLen()))
				}
			}()
		}
		wg.Wait()
		checkParams(c)
	})
}

// chunkReader hands out a known stream in awkward pieces and may fail.
// redraws has keys generated from streams that begin with blocks standing for
// no key at all: zero, or the order of the group.
func redraws(c *vk.C) {
	for _, s := range specs {
		for bad := 0; bad <= 5; bad++ {
			for i := 0; i < c.N(4, 40); i++ {
				r := c.Rng("redraw"+s.name, bad*1000+i)
				bc, n := s.get(), s.bits/8
				block := func(k *big.Int) []byte {
					b := make([]byte, n)
					kb := k.Bytes()
					copy(b[n-len(kb):], kb)
					b[1] ^= 0x42
					return b
				}
				var stream []byte
				for j := 0; j < bad; j++ {
					if s.n.BitLen() <= s.bits && r.Intn(2) == 0 {
						stream = append(stream, block(s.n)...)
					} else {
						stream = append(stream, block(new(big.Int))...)
					}
				}
				ends := i%4 == 3
				if !ends {
					last := make([]byte, n)
					r.Read(last)
					stream = append(stream, last...)
				}
				rd := &chunkReader{r: r, data: append([]byte{}, stream...), err: io.EOF}
				var priv []byte
				var x, y *big.Int
				var err error
				if !sound(c, fmt.Sprintf("%s.GenerateKey of %x", s.name, stream), func() { priv, x, y, err = bc.GenerateKey(rd) }) {
					return
				}
				c.Eval(fmt.Sprint("redraw", s.name, bad, ends))
				if ends {
					if err != nil && x == nil {
						continue
					}
					if err == nil && x != nil && bad > 0 && s.rc().mul(s.g(), new(big.Int).SetBytes(priv)).is(x, y, false) {
						continue // made a key of it in another way
					}
					c.Violate("key short", "%s.GenerateKey of a stream holding no key at all (%x) = %x, (%x,%x), %v", s.name, stream, priv, x, y, err)
					continue
				}
				if err != nil || len(priv) != n || x == nil || y == nil {
					c.Violate("redraw", "%s.GenerateKey of %d blocks that are no key, and one that is, = %x, (%x,%x), %v", s.name, bad, priv, x, y, err)
					continue
				}
				if w := s.rc().mul(s.g(), new(big.Int).SetBytes(priv)); w.inf || !w.is(x, y, false) {
					c.Violate("key pair", "%s: private key %x comes with public key (%x,%x), want %v (from %x)", s.name, priv, x, y, w, stream)
				}
			}
		}
	}
}

type chunkReader struct {
	r    *rand.Rand
	data []byte
	used int
	err  error

	asked bool
}

func (cr *chunkReader) Read(p []byte) (int, error) {
	cr.asked = true
	if len(p) == 0 {
		return 0, nil
	}
	if len(cr.data) == 0 {
		return 0, cr.err
	}
	n := 1 + cr.r.Intn(len(p))
	if n > len(cr.data) {
		n = len(cr.data)
	}
	copy(p, cr.data[:n])
	cr.data = cr.data[n:]
	cr.used += n
	return n, nil
}

// draw takes n bytes by one of the two ways, and what became of it.
func draw(way, n int) (b []byte, m int, failed string) {
	b, m = make([]byte, n), n
	var err error
	v, _ := vk.Panics(func() {
		if way == 0 {
			b = randentropy.GetEntropyCSPRNG(n)
		} else {
			m, err = randentropy.Reader.Read(b)
		}
	})
	if v != nil {
		failed = fmt.Sprint("panic: ", v)
	} else if err != nil {
		failed = fmt.Sprint("error: ", err)
	}
	return
}

// TestEntropyChild draws from a source that fails; it may end the process.
func TestEntropyChild(t *testing.T) {
	var way, n, have, eof int
	if k, _ := fmt.Sscan(os.Getenv("VERIF_ENTROPY"), &way, &n, &have, &eof); k != 4 {
		t.Skip("only for C33")
	}
	rd := &chunkReader{r: rand.New(rand.NewSource(int64(n))), data: bytes.Repeat([]byte{7}, have), err: errors.New("no entropy")}
	if eof == 1 {
		rd.err = io.EOF
	}
	crand.Reader = rd
	b, m, failed := draw(way, n)
	fmt.Printf("\nDRAWN %v %d %d %q %x\n", rd.asked, m, len(b), failed, b)
}

// entropySources replaces the system's random source by one that delivers in
// pieces, fails or ends early. A draw either fails or is exactly what the
// source delivered.
func entropySources(c *vk.C) {
	old := crand.Reader
	defer func() { crand.Reader = old }()
	for i := 0; i < c.N(400, 8000); i++ {
		r := c.Rng("source", i)
		n := 1 + vk.Tail(r, 10, 100, 70000)
		data := make([]byte, n+r.Intn(20))
		r.Read(data)
		rd := &chunkReader{r: r, data: append([]byte{}, data...), err: errors.New("no entropy")}
		crand.Reader = rd
		b, m, failed := draw(i%2, n)
		crand.Reader = old
		c.Eval(fmt.Sprint("source", n))
		if !rd.asked {
			continue // draws from elsewhere
		}
		if failed != "" || len(b) != n || m != n {
			c.Violate("slow source", "%d bytes drawn from a source delivering in pieces: %d, %d, %s", n, len(b), m, failed)
		} else if rd.used == n && !bytes.Equal(b, data[:n]) {
			c.Violate("source", "%d bytes drawn are %x, the source delivered %x", n, b, data[:n])
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < c.N(16, 64); i++ {
		r := c.Rng("failing source", i)
		n := 1 + r.Intn(64)
		have := r.Intn(n)
		if i%4 < 2 {
			have = 0
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-test.run", "^TestEntropyChild$", "-test.v")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_ENTROPY=%d %d %d %d", i%2, n, have, i/2%2))
			out, _ := cmd.CombinedOutput()
			var asked bool
			var m, l int
			var failed, hx string
			if at := bytes.Index(out, []byte("\nDRAWN ")); at >= 0 {
				if k, _ := fmt.Sscanf(string(out[at+1:]), "DRAWN %t %d %d %q %s", &asked, &m, &l, &failed, &hx); k == 5 && asked && failed == "" && m == n && l == n {
					c.ViolateAsync("failing source", "%d random bytes were drawn although the source failed after %d: %s", n, have, hx)
				}
			}
			c.Eval(fmt.Sprint("failing source", i, n, have))
		}()
	}
	wg.Wait()
}

func TestC33(t *testing.T) {
	vk.Run(t, "C33", "points with short and long coordinates serialized and read back, malformed encodings, keys generated from known, failing and real random streams, concurrent draws of entropy; distinct = curve, coordinate lengths, verdict, stream", func(c *vk.C) {
		loadSpecs(c)
		if !firstUse(c) {
			return
		}
		boom := errors.New("boom")
		each(c, "serial", c.N(6000, 150000), func(r *rand.Rand, i int) {
			s := specs[i%4]
			rc, bc := s.rc(), s.get()
			n := s.bits / 8
			x, y := new(big.Int).Rand(r, s.p), new(big.Int).Rand(r, s.p)
			if r.Intn(2) == 0 {
				x.Rsh(x, uint(r.Intn(s.bits+1)))
			}
			if r.Intn(2) == 0 {
				y.Rsh(y, uint(r.Intn(s.bits+1)))
			}
			kx, ky := new(big.Int).Set(x), new(big.Int).Set(y)
			want := append([]byte{4}, x.FillBytes(make([]byte, n))...)
			want = append(want, y.FillBytes(make([]byte, n))...)
			got := bc.Marshal(x, y)
			c.Eval(fmt.Sprint("marshal", s.name, len(x.Bytes()), len(y.Bytes())))
			c.Sample("%s (%x,%x)", s.name, x, y)
			if !bytes.Equal(got, want) {
				c.ViolateAsync(s.name+" Marshal", "%s.Marshal(%x,%x) = %x, want %x", s.name, x, y, got, want)
			}
			ux, uy := bc.Unmarshal(want)
			if ux == nil || uy == nil || ux.Cmp(kx) != 0 || uy.Cmp(ky) != 0 {
				c.ViolateAsync(s.name+" Unmarshal", "%s.Unmarshal(%x) = (%x,%x)", s.name, want, ux, uy)
			}
			for j := range got {
				got[j] = 0xff
			}
			if x.Cmp(kx) != 0 || y.Cmp(ky) != 0 {
				c.ViolateAsync("marshal changes", "%s.Marshal changed its point", s.name)
			}
			c.Hold("Marshal", bc.Marshal(x, y))
			// A buffer that carries one point after another.
			x2 := new(big.Int).Rand(r, s.p)
			for _, p := range [][2]*big.Int{{y, x2}, {x2, x}} {
				copy(got, append(append([]byte{4}, p[0].FillBytes(make([]byte, n))...), p[1].FillBytes(make([]byte, n))...))
				gx, gy := bc.Unmarshal(got)
				if gx == nil || gy == nil || gx.Cmp(p[0]) != 0 || gy.Cmp(p[1]) != 0 {
					c.ViolateAsync(s.name+" Unmarshal", "%s.Unmarshal(%x) = (%x,%x), the buffer held other points before", s.name, got, gx, gy)
				}
				c.Hold("Unmarshal", gx)
				c.Hold("Unmarshal", gy)
			}
			bad := append([]byte{}, want...)
			switch r.Intn(5) {
			case 0:
				bad = bad[:r.Intn(len(bad))]
			case 1:
				bad = append(bad, make([]byte, 1+r.Intn(3))...)
			case 2:
				bad[0] = byte([]int{0, 2, 3, 5, 6, 7, 255}[r.Intn(7)])
			case 3:
				bad = bad[1:]
			case 4:
				bad = bad[:1+n]
				bad[0] = 2
			}
			kbad := append([]byte{}, bad...)
			sound(c, fmt.Sprintf("%s.Unmarshal(%x)", s.name, bad), func() {
				if ux, _ := bc.Unmarshal(bad); ux != nil {
					c.ViolateAsync("accepts bad", "%s.Unmarshal(%x) = %x", s.name, bad, ux)
				}
			})
			if !bytes.Equal(bad, kbad) {
				c.ViolateAsync("unmarshal changes", "%s.Unmarshal changed its input", s.name)
			}
			c.Eval(fmt.Sprint("bad", s.name, len(bad)))

			// Keys.
			if i%24 >= 4 {
				return
			}
			stream := make([]byte, n*2+r.Intn(20))
			r.Read(stream)
			short := r.Intn(4) == 0
			if short {
				stream = stream[:r.Intn(n)]
			}
			rd := &chunkReader{r: r, data: append([]byte{}, stream...), err: boom}
			if r.Intn(2) == 0 {
				rd.err = io.EOF
			}
			var priv []byte
			var err error
			if !sound(c, fmt.Sprintf("%s.GenerateKey", s.name), func() { priv, x, y, err = bc.GenerateKey(rd) }) {
				return
			}
			c.Eval(fmt.Sprint("key", s.name, short))
			if short {
				if err == nil {
					c.ViolateAsync("key short", "%s.GenerateKey succeeds on %d random bytes", s.name, len(stream))
				}
				if x != nil {
					c.ViolateAsync("key short point", "%s.GenerateKey fails (%v) but returns a point", s.name, err)
				}
				return
			}
			if err != nil || len(priv) != n || x == nil || y == nil {
				c.ViolateAsync("key", "%s.GenerateKey = %x, (%x,%x), %v", s.name, priv, x, y, err)
				return
			}
			c.Hold("key", priv)
			c.Hold("key point", x)
			c.Hold("key point", y)
			k := new(big.Int).SetBytes(priv)
			if w := rc.mul(s.g(), k); w.inf || !w.is(x, y, false) || !bc.IsOnCurve(x, y) {
				c.ViolateAsync("key pair", "%s: private key %x comes with public key (%x,%x), want %v", s.name, priv, x, y, w)
			}
			// The key carries all the randomness: different streams, different
			// keys, and equal streams equal ones.
			if rd.used != n {
				c.ViolateAsync("key bytes", "%s.GenerateKey consumed %d random bytes", s.name, rd.used)
			}
			diff := 0
			for j := range priv {
				if priv[j] != stream[j] {
					diff++
				}
			}
			if diff > 1 {
				c.ViolateAsync("key randomness", "%s: key %x from random bytes %x", s.name, priv, stream[:n])
			}
			q := r.Intn(n)
			flipped := append([]byte{}, stream...)
			flipped[q] ^= 1 << uint(r.Intn(8))
			p2, _, _, _ := bc.GenerateKey(&chunkReader{r: r, data: flipped, err: boom})
			p3, _, _, _ := bc.GenerateKey(&chunkReader{r: r, data: append([]byte{}, stream...), err: boom})
			if bytes.Equal(p2, priv) || !bytes.Equal(p3, priv) {
				c.ViolateAsync("key bit", "%s: keys %x from %x, %x from %x, %x from the first again", s.name, priv, stream[:n], p2, flipped[:n], p3)
			}
		})
		redraws(c)
		// Real entropy: whole buffers, nothing repeated, nothing left over.
		seen := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			r := c.Rng("entropy", g)
			go func() {
				defer wg.Done()
				for i := 0; i < c.N(400, 8000); i++ {
					n := 16 + r.Intn(80)
					if r.Intn(20) == 0 {
						n = r.Intn(70000)
					}
					var b []byte
					if r.Intn(2) == 0 {
						b = make([]byte, n, n+32)
						if m, err := randentropy.Reader.Read(b); m != n || err != nil {
							c.ViolateAsync("read", "Reader.Read of %d bytes = %d, %v", n, m, err)
						}
						for _, z := range b[n : n+32] {
							if z != 0 {
								c.ViolateAsync("overrun", "Reader.Read wrote past its buffer")
							}
						}
					} else {
						b = randentropy.GetEntropyCSPRNG(n)
					}
					c.Hold("entropy", b)
					if len(b) != n {
						c.ViolateAsync("length", "%d random bytes requested, got %d", n, len(b))
					}
					c.Eval(fmt.Sprint("entropy", n))
					mu.Lock()
					for o := 0; o+16 <= len(b) && o < 512; o += 16 {
						if seen[string(b[o:o+16])] {
							c.ViolateAsync("repeat", "16 random bytes %x came twice", b[o:o+16])
						}
						seen[string(b[o:o+16])] = true
					}
					if len(b) >= 16 {
						if tail := string(b[len(b)-16:]); len(b)%16 != 0 {
							if seen[tail] {
								c.ViolateAsync("repeat", "16 random bytes %x came twice", tail)
							}
							seen[tail] = true
						}
					}
					mu.Unlock()
					own := map[string]bool{}
					for o := 0; o+16 <= len(b); o += 16 {
						if own[string(b[o:o+16])] {
							c.ViolateAsync("repeat", "16 random bytes %x came twice in %d", b[o:o+16], n)
						}
						own[string(b[o:o+16])] = true
					}
				}
			}()
		}
		wg.Wait()
		entropySources(c)
		for _, s := range specs {
			keys := map[string]bool{}
			for i := 0; i < 12; i++ {
				priv, x, y, err := s.get().GenerateKey(randentropy.Reader)
				if err != nil || keys[string(priv)] || !s.rc().mul(s.g(), new(big.Int).SetBytes(priv)).is(x, y, false) {
					c.Violate("fresh key", "%s: key %x, public (%x,%x), %v, repeated %v", s.name, priv, x, y, err, keys[string(priv)])
				}
				keys[string(priv)] = true
				c.Eval("fresh" + string(priv))
			}
		}
		checkParams(c)
	})
}

func TestC34(t *testing.T) {
	vk.Run(t, "C34", "hex strings of every length in blocks of eight, boundary and random blocks, encoded and decoded and compared with an independent mixed-radix codec; distinct = block values and lengths", func(c *vk.C) {
		words := crypto.MnemonicWords
		n := len(words)
		keep := append([]string{}, words...)
		var cold sync.WaitGroup
		for g := 0; g < 8; g++ { // first use by many
			cold.Add(1)
			r := c.Rng("cold", g)
			go func() {
				defer cold.Done()
				for i := 0; i < 20; i++ {
					msg := fmt.Sprintf("%08x%08x", r.Uint32(), r.Uint32())
					var back string
					if v, _ := vk.Panics(func() { back = crypto.MnemonicDecode(crypto.MnemonicEncode(msg)) }); v != nil || back != msg {
						c.ViolateAsync("first use", "%s becomes %s (panic %v)", msg, back, v)
					}
				}
			}()
		}
		cold.Wait()
		if n != 1626 {
			c.Violate("count", "%d words", n)
		}
		idx := map[string]int{}
		for i, w := range words {
			if w == "" {
				c.Violate("empty word", "word %d is empty", i)
			}
			if j, dup := idx[w]; dup {
				c.Violate("duplicate", "words %d and %d are both %q", j, i, w)
			}
			idx[w] = i
			if g := crypto.IndexOf(words, w); g != int64(i) {
				c.Violate("index", "IndexOf(%q) = %d, want %d", w, g, i)
			}
		}
		// Any other list: the first place, or none.
		c.Mixed(c.N(1500, 40000), func(i int) {
			r := c.Rng("list", i)
			var list []string
			switch r.Intn(4) {
			case 0:
				a := r.Intn(n)
				list = words[a : a+r.Intn(n-a+1)]
			case 1:
				list = append([]string{}, words...)
				r.Shuffle(n, func(a, b int) { list[a], list[b] = list[b], list[a] })
			case 2:
				for k := r.Intn(30); k > 0; k-- {
					list = append(list, []string{"", "a", "b", "aa", "A", "like", "ab"}[r.Intn(7)])
				}
			case 3:
				for k := vk.Tail(r, 5, 40, 4000); k > 0; k-- {
					list = append(list, words[r.Intn(n)])
				}
			}
			for k := 0; k < 6; k++ {
				w := []string{"", "a", "ab", "B", "lik", "likee"}[r.Intn(6)]
				if len(list) > 0 && r.Intn(2) == 0 {
					w = list[r.Intn(len(list))]
				} else if r.Intn(2) == 0 {
					w = words[r.Intn(n)]
				}
				want := int64(-1)
				for p := len(list) - 1; p >= 0; p-- {
					if list[p] == w {
						want = int64(p)
					}
				}
				if g := crypto.IndexOf(list, w); g != want {
					c.Violate("index", "IndexOf(%d words, %q) = %d, want %d", len(list), w, g, want)
				}
				c.Eval(fmt.Sprint("index", len(list), want))
			}
		})
		for _, w := range []string{"", "Like", "like ", "zzz"} {
			if g := crypto.IndexOf(words, w); g != -1 {
				c.Violate("index missing", "IndexOf(%q) = %d", w, g)
			}
		}
		enc := func(v uint32) []string {
			x := int(v)
			a := x % n
			b := (x/n + a) % n
			d := (x/n/n + b) % n
			return []string{keep[a], keep[b], keep[d]}
		}
		check := func(vals []uint32, violate func(sig, f string, args ...interface{})) {
			msg, want := "", []string{}
			for _, v := range vals {
				msg += fmt.Sprintf("%08x", v)
				want = append(want, enc(v)...)
			}
			var got []string
			v, _ := vk.Panics(func() { got = crypto.MnemonicEncode(msg) })
			if v != nil || len(got) != len(want) {
				violate("encode", "MnemonicEncode(%s) = %q, panic %v", msg, got, v)
				return
			}
			for i := range want {
				if got[i] != want[i] {
					violate("encode word", "MnemonicEncode(%s) = %q, want %q", msg, got, want)
					return
				}
			}
			var back string
			v, _ = vk.Panics(func() { back = crypto.MnemonicDecode(got) })
			if v == nil {
				c.Hold("MnemonicDecode", back)
				c.Hold("MnemonicEncode", strings.Join(got, " "))
			}
			if v != nil || back != msg {
				violate("round trip", "%s becomes %q becomes %q (panic %v)", msg, got, back, v)
			}
			c.Eval(msg)
			c.Sample("%s %q", msg, got)
		}
		// Every digit position at and around its limits.
		for _, a := range []int{0, 1, 2, n/2 - 1, n / 2, n - 2, n - 1} {
			for _, b := range []int{0, 1, n / 2, n - 2, n - 1} {
				for _, d := range []int{0, 1, n / 2, n - 2, n - 1} {
					if x := a + n*b + n*n*d; x <= 0xffffffff {
						check([]uint32{uint32(x)}, c.Violate)
					}
				}
			}
		}
		check([]uint32{0xffffffff, 0, 0x80000000, 0x7fffffff}, c.Violate)
		check(nil, c.Violate)
		c.Mixed(c.N(12000, 400000), func(i int) {
			r := c.Rng("msg", i)
			vals := make([]uint32, vk.Tail(r, 60, 9, c.N(600, 6000)))
			if r.Intn(1000) == 0 {
				vals = make([]uint32, 500+r.Intn(5000))
			}
			for j := range vals {
				vals[j] = r.Uint32() >> uint(r.Intn(4)*r.Intn(9))
			}
			check(vals, c.Violate)
		})
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			r := c.Rng("par", g)
			go func() {
				defer wg.Done()
				for i := 0; i < 300; i++ {
					check([]uint32{r.Uint32(), r.Uint32()}, c.ViolateAsync)
				}
			}()
		}
		wg.Wait()
		for i := range keep {
			if words[i] != keep[i] {
				c.Violate("list changed", "word %d changed to %q", i, words[i])
			}
		}
	})
}
