// Command vast hashes messages longer than 32-bit counters can tell, with the
// repository's hash and with a plain reading of the specification, and
// prints one JSON line for each sum compared. It is built without the race
// detector: one hash is used by one goroutine.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash"
	"math/bits"
	"math/rand"
	"os"
	"strconv"
	"sync"

	xsha3 "golang.org/x/crypto/sha3"

	"flychain/crypto/sha3"
)

var rounds [24]uint64
var rot [25]int
var perm [25]int

func init() {
	// Round constants from the LFSR, offsets from the walk (x,y) -> (y,2x+3y).
	lfsr := byte(1)
	for i := range rounds {
		for j := 0; j < 7; j++ {
			if lfsr&1 != 0 {
				rounds[i] |= 1 << (1<<uint(j) - 1)
			}
			high := lfsr&0x80 != 0
			lfsr <<= 1
			if high {
				lfsr ^= 0x71
			}
		}
	}
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			perm[x+5*y] = y + 5*((2*x+3*y)%5)
		}
	}
}

func permute(a *[25]uint64) {
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		var b [25]uint64
		for i := 0; i < 25; i++ {
			b[perm[i]] = bits.RotateLeft64(a[i]^d[i%5], rot[i])
		}
		for y := 0; y < 25; y += 5 {
			for x := 0; x < 5; x++ {
				a[x+y] = b[x+y] ^ (^b[(x+1)%5+y] & b[(x+2)%5+y])
			}
		}
		a[0] ^= rounds[r]
	}
}

// sponge absorbs whole blocks and keeps the rest.
type sponge struct {
	a    [25]uint64
	rate int
	rest []byte
}

func (s *sponge) block(p []byte) {
	for i := 0; i < s.rate; i += 8 {
		s.a[i/8] ^= binary.LittleEndian.Uint64(p[i:])
	}
	permute(&s.a)
}

func (s *sponge) write(p []byte) {
	if len(s.rest) > 0 {
		n := s.rate - len(s.rest)
		if n > len(p) {
			n = len(p)
		}
		s.rest = append(s.rest, p[:n]...)
		p = p[n:]
		if len(s.rest) < s.rate {
			return
		}
		s.block(s.rest)
		s.rest = s.rest[:0]
	}
	for len(p) >= s.rate {
		s.block(p)
		p = p[s.rate:]
	}
	s.rest = append(s.rest, p...)
}

func (s *sponge) sum(n int) []byte {
	t := *s
	last := make([]byte, s.rate)
	copy(last, s.rest)
	last[len(s.rest)] ^= 1
	last[s.rate-1] ^= 0x80
	t.block(last)
	var out []byte
	for _, l := range t.a {
		out = binary.LittleEndian.AppendUint64(out, l)
	}
	return out[:n]
}

var mu sync.Mutex

func report(name string, n int64, got, want []byte) {
	mu.Lock()
	defer mu.Unlock()
	json.NewEncoder(os.Stdout).Encode(map[string]interface{}{
		"name": name, "n": n, "ok": bytes.Equal(got, want), "got": fmt.Sprintf("%x", got), "want": fmt.Sprintf("%x", want),
	})
}

func main() {
	// The reference for want of a known one.
	for n := 0; n < 400; n++ {
		m := bytes.Repeat([]byte{byte(n)}, n)
		s, h := &sponge{rate: 136}, xsha3.NewLegacyKeccak256()
		s.write(m)
		h.Write(m)
		if !bytes.Equal(s.sum(32), h.Sum(nil)) {
			fmt.Fprintln(os.Stderr, "reference wrong")
			os.Exit(9)
		}
	}
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	thorough := os.Args[2] == "thorough"
	algos := []struct {
		name string
		size int
		mk   func() hash.Hash
	}{
		{"Keccak224", 28, sha3.NewKeccak224}, {"Keccak256", 32, sha3.NewKeccak256},
		{"Keccak384", 48, sha3.NewKeccak384}, {"Keccak512", 64, sha3.NewKeccak512},
	}
	var wg sync.WaitGroup
	for i := range algos {
		al := algos[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed*10 + int64(al.size)))
			// Lengths at which counters of bytes or bits overflow.
			var at []int64
			for _, p := range []uint{28, 29, 31, 32} {
				at = append(at, 1<<p-int64(r.Intn(300)), 1<<p+int64(r.Intn(300)), 1<<p+1000+int64(r.Intn(100000)))
			}
			switch {
			case thorough || al.size == 32:
			case al.size == 64:
				at = at[:9] // 2^31
			default: // no fast reference
				at = at[:0]
			}
			buf := make([]byte, 1<<20)
			r.Read(buf)
			// Both run in step, each at its own place.
			feed := func(write func([]byte), sum func() []byte) [][]byte {
				r := rand.New(rand.NewSource(seed))
				var sums [][]byte
				off := int64(0)
				for _, a := range at {
					for off < a {
						k := int64(r.Intn(len(buf)) + 1)
						if a-off < 1000 {
							k = int64(r.Intn(20) + 1)
						} else if k > a-off-900 {
							k = a - off - 900
						}
						if k < 1 {
							k = 1
						}
						if k > a-off {
							k = a - off
						}
						o := int64(r.Intn(len(buf) - int(k) + 1))
						write(buf[o : o+k])
						off += k
					}
					sums = append(sums, sum())
				}
				return sums
			}
			var want [][]byte
			ref := make(chan struct{})
			go func() {
				s := &sponge{rate: 200 - 2*al.size}
				switch al.size {
				case 32:
					h := xsha3.NewLegacyKeccak256()
					want = feed(func(p []byte) { h.Write(p) }, func() []byte { return h.Sum(nil) })
				case 64:
					h := xsha3.NewLegacyKeccak512()
					want = feed(func(p []byte) { h.Write(p) }, func() []byte { return h.Sum(nil) })
				default:
					want = feed(s.write, func() []byte { return s.sum(al.size) })
				}
				close(ref)
			}()
			h := al.mk()
			got := feed(func(p []byte) { h.Write(p) }, func() []byte { return h.Sum(nil) })
			<-ref
			for j := range at {
				report(al.name, at[j], got[j], want[j])
			}
		}()
	}
	// One write of more bytes than 32 bits count.
	wg.Add(1)
	go func() {
		defer wg.Done()
		m := make([]byte, 1<<32+137)
		ref := make(chan []byte)
		go func() {
			h := xsha3.NewLegacyKeccak256()
			h.Write(m)
			ref <- h.Sum(nil)
		}()
		h := sha3.NewKeccak256()
		if n, err := h.Write(m); n != len(m) || err != nil {
			report("Keccak256 Write", int64(len(m)), []byte(fmt.Sprint(n, err)), []byte(fmt.Sprint(len(m), nil)))
		}
		report("Keccak256 at once", int64(len(m)), h.Sum(nil), <-ref)
	}()
	wg.Wait()
}
