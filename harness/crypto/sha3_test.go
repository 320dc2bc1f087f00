package crypto

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
	xsha3 "golang.org/x/crypto/sha3"
	"verifharness/vk"
)

// refKeccak follows the Keccak specification literally: state as a 5x5 matrix
// of lanes, round constants from the LFSR, offsets from the (x,y) walk.
func refKeccak(outLen int, msg []byte) []byte {
	rate := 200 - 2*outLen
	var a [5][5]uint64
	rotl := func(v uint64, n uint) uint64 { n %= 64; return v<<n | v>>((64-n)%64)&(1<<n-1) }
	f := func() {
		lfsr := byte(1)
		for round := 0; round < 24; round++ {
			var cc, d [5]uint64
			for x := 0; x < 5; x++ {
				for y := 0; y < 5; y++ {
					cc[x] ^= a[x][y]
				}
			}
			for x := 0; x < 5; x++ {
				d[x] = cc[(x+4)%5] ^ rotl(cc[(x+1)%5], 1)
				for y := 0; y < 5; y++ {
					a[x][y] ^= d[x]
				}
			}
			var b [5][5]uint64
			b[0][0] = a[0][0]
			x, y := 1, 0
			for t := 0; t < 24; t++ {
				b[y][(2*x+3*y)%5] = rotl(a[x][y], uint((t+1)*(t+2)/2))
				x, y = y, (2*x+3*y)%5
			}
			for x := 0; x < 5; x++ {
				for y := 0; y < 5; y++ {
					a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
				}
			}
			for j := uint(0); j < 7; j++ {
				if lfsr&1 == 1 {
					a[0][0] ^= 1 << (1<<j - 1)
				}
				hi := lfsr & 0x80
				lfsr <<= 1
				if hi != 0 {
					lfsr ^= 0x71
				}
			}
		}
	}
	p := append(append([]byte{}, msg...), 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for ; len(p) > 0; p = p[rate:] {
		for i := 0; i < rate; i++ {
			a[i/8%5][i/40] ^= uint64(p[i]) << uint(8*(i%8))
		}
		f()
	}
	out := make([]byte, outLen)
	for i := range out {
		out[i] = byte(a[i/8%5][i/40] >> uint(8*(i%8)))
	}
	return out
}

var algos = []struct {
	name string
	size int
	mk   func() hash.Hash
}{
	{"Keccak224", 28, sha3.NewKeccak224}, {"Keccak256", 32, sha3.NewKeccak256}, {"Keccak384", 48, sha3.NewKeccak384}, {"Keccak512", 64, sha3.NewKeccak512},
}

// vast has messages hashed that are longer than 32 bits can count, in a
// process without the race detector.
func vast(c *vk.C) {
	bin := os.Getenv("VERIF_VAST")
	if bin == "" {
		c.HarnessError("no binary for long messages")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.N(500, 5000))*time.Second)
	defer cancel()
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	cmd := exec.CommandContext(ctx, bin, fmt.Sprint(c.Rng("vast", 0).Int31()), tier)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	sums := 0
	for _, l := range bytes.Split(out, []byte("\n")) {
		var m struct {
			Name      string
			N         int
			OK        bool
			Got, Want string
		}
		if json.Unmarshal(l, &m) != nil {
			continue
		}
		sums++
		c.Eval(fmt.Sprint("vast ", m.Name, m.N))
		c.Max("longest message", m.N)
		if !m.OK {
			c.Violate(m.Name+" vast", "%s of %d bytes is %s, want %s", m.Name, m.N, m.Got, m.Want)
		}
	}
	c.Count("sums of messages of 2^28 to 2^32 bytes", sums)
	switch {
	case ctx.Err() != nil:
		if sums == 0 {
			c.Violate("vast hangs", "hashing 4 GiB does not end")
		}
	case err != nil && strings.Contains(stderr.String(), "panic:"):
		c.Violate("vast crash", "hashing long messages: %.2000s", stderr.String())
	case err != nil || sums == 0:
		c.HarnessError("long messages: %v, %d sums: %.2000s", err, sums, stderr.String())
	}
}

func TestC31(t *testing.T) {
	vk.Run(t, "C31", "messages of every length around block boundaries, written in every manner of chunks with intermediate sums and resets, hashed by the four variants and compared with a literal reading of the specification; distinct = variant, message length and chunk boundaries", func(c *vk.C) {
		for i := 0; i < 300; i++ { // the reference itself
			m := make([]byte, i)
			c.Rng("ref", i).Read(m)
			for _, h := range []hash.Hash{xsha3.NewLegacyKeccak256(), xsha3.NewLegacyKeccak512()} {
				h.Write(m)
				if !bytes.Equal(h.Sum(nil), refKeccak(h.Size(), m)) {
					c.HarnessError("reference hash wrong for %x", m)
				}
			}
		}
		one := func(r *rand.Rand, violate func(sig, f string, args ...interface{})) {
			al := algos[r.Intn(4)]
			rate := 200 - 2*al.size
			n := r.Intn(3 * rate)
			switch r.Intn(4) {
			case 0:
				n = rate*r.Intn(6) + r.Intn(19) - 9
			case 1:
				n = r.Intn(20)
			case 2:
				n = vk.Tail(r, 60, 1500, c.N(1<<18, 1<<22))
			}
			if n < 0 {
				n = 0
			}
			m := make([]byte, n)
			r.Read(m)
			keep := append([]byte{}, m...)
			h := al.mk()
			if h.Size() != al.size || h.BlockSize() != rate {
				violate("size", "%s has size %d, block %d", al.name, h.Size(), h.BlockSize())
			}
			if r.Intn(3) == 0 { // used before
				h.Write(m[:r.Intn(n+1)])
				if r.Intn(2) == 0 {
					h.Sum(nil)
				}
				h.Reset()
			}
			shape := ""
			style := r.Intn(5)
			if n > 1<<16 && style < 2 {
				style = 3
			}
			for off := 0; off < n || r.Intn(6) == 0; {
				k := n - off
				switch style {
				case 0:
					k = 1
				case 1:
					k = 1 + r.Intn(9)
				case 2:
					k = rate + r.Intn(3) - 1
				case 3:
					k = r.Intn(2 * rate)
				}
				if k > n-off {
					k = n - off
				}
				w, err := h.Write(m[off : off+k])
				if w != k || err != nil {
					violate("write", "%s.Write of %d bytes = %d, %v", al.name, k, w, err)
				}
				off += k
				shape += fmt.Sprint(k, ",")
				if r.Intn(12+n/500) == 0 { // a sum in between does not disturb
					if g := h.Sum(nil); !bytes.Equal(g, refKeccak(al.size, m[:off])) {
						violate(al.name+" midway", "%s of %x, written as %s, is %x", al.name, m[:off], shape, g)
					}
				}
			}
			want := refKeccak(al.size, m)
			pre := make([]byte, r.Intn(10), 10+r.Intn(120))
			r.Read(pre)
			kp := append([]byte{}, pre...)
			for k := 0; k < 2; k++ {
				if g := h.Sum(pre); !bytes.Equal(g, append(append([]byte{}, kp...), want...)) {
					violate(al.name, "%s of %x, written as %s, appended to %x, is %x; want %x", al.name, m, shape, kp, g, want)
				}
			}
			if !bytes.Equal(m, keep) || !bytes.Equal(pre, kp) {
				violate("input changed", "%s changed its input", al.name)
			}
			if r.Intn(3) == 0 { // the same length again, another message
				h.Reset()
				m2 := make([]byte, n)
				r.Read(m2)
				h.Write(m2)
				if g := h.Sum(nil); !bytes.Equal(g, refKeccak(al.size, m2)) {
					violate(al.name+" reused", "%s of %x after a reset, used for %x before, is %x", al.name, m2, m, g)
				}
			}
			if al.size == 32 {
				if g := randentropy.Sha3(m); !bytes.Equal(g, want) {
					violate("Sha3", "Sha3(%x) = %x", m, g)
				}
			}
			c.Eval(al.name + shape)
			if len(shape) < 60 {
				c.Sample("%s of %d bytes in %s %x", al.name, n, shape, want)
			}
		}
		// Every length once, in one piece.
		for n := 0; n <= c.N(320, 700); n++ {
			m := make([]byte, n)
			c.Rng("len", n).Read(m)
			for _, al := range algos {
				h := al.mk()
				h.Write(m)
				if g := h.Sum(nil); !bytes.Equal(g, refKeccak(al.size, m)) {
					c.Violate(al.name+" whole", "%s of %x is %x", al.name, m, g)
				}
				c.Eval(fmt.Sprint("whole", al.name, n))
			}
		}
		c.Mixed(c.N(10000, 400000), func(i int) {
			one(c.Rng("hash", i), c.Violate)
		})
		// Messages of many megabytes, in pieces of every size.
		var long sync.WaitGroup
		for g := range algos {
			al := algos[g]
			r := c.Rng("long", g)
			long.Add(1)
			go func() {
				defer long.Done()
				m := make([]byte, c.N(17<<20, 70<<20)+r.Intn(1<<16))
				r.Read(m)
				h := al.mk()
				at := []int{1<<20 + 300 + r.Intn(1000), 1<<24 + 300 + r.Intn(1000), len(m)}
				off := 0
				for _, a := range at {
					for off < a {
						k := r.Intn(1 << uint(1+r.Intn(16)))
						if a-off < 300 {
							k = 1 + r.Intn(9)
						}
						if k > a-off {
							k = a - off
						}
						h.Write(m[off : off+k])
						off += k
					}
					g := h.Sum(nil)
					if a > 1<<20+2000 && (al.size == 28 || al.size == 48) && a != len(m) {
						continue
					}
					var want []byte
					switch al.size {
					case 32, 64: // checked against the reference above
						x := xsha3.NewLegacyKeccak256()
						if al.size == 64 {
							x = xsha3.NewLegacyKeccak512()
						}
						x.Write(m[:a])
						want = x.Sum(nil)
					default:
						want = refKeccak(al.size, m[:a])
					}
					if !bytes.Equal(g, want) {
						c.ViolateAsync(al.name+" long", "%s of %d bytes is %x, want %x", al.name, a, g, want)
					}
					c.Eval(fmt.Sprint("long", al.name, a))
					c.Max("longest message", a)
				}
			}()
		}
		long.Wait()
		vast(c)
		// Separate hashes are independent.
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < c.N(200, 5000); i++ {
					one(c.Rng("par", g*100000+i), c.ViolateAsync)
				}
			}()
		}
		wg.Wait()
	})
}
