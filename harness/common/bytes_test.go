package common

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"flychain/common"
	"verifharness/vk"
)

func TestC26(t *testing.T) {
	vk.Run(t, "C26", "byte strings of all lengths and zero patterns padded, trimmed, copied and converted to and from hex, compared with byte-at-a-time references, and inputs checked for changes; distinct = function, input length, zero pattern and parameter", func(c *vk.C) {
		c.Mixed(c.N(40000, 1500000), func(i int) {
			r := c.Rng("bytes", i)
			n := r.Intn(14)
			if r.Intn(8) == 0 {
				n = vk.Tail(r, 100, 200, 1<<16)
			}
			if i%1500 == 13 {
				n = 1<<16 + r.Intn(2<<20)
			}
			// Spare capacity, filled with a sentinel, shows writes past the end.
			buf := genBytes(r, n+64)
			for j := n; j < len(buf); j++ {
				buf[j] = 0xc3
			}
			for j := 0; j < n; j++ {
				if r.Intn(3) == 0 {
					buf[j] = 0
				}
			}
			if n > 0 && (r.Intn(10) == 0 || n > 1000 && r.Intn(2) == 0) { // long runs of zeros at an end, or nothing else
				k := r.Intn(n + 1)
				for j := 0; j < k; j++ {
					if i%2 == 0 {
						buf[j] = 0
					} else {
						buf[n-1-j] = 0
					}
				}
			}
			b := buf[:n]
			whole := append([]byte{}, buf...)
			keep := append([]byte{}, b...)
			lz, tz := 0, 0
			for lz < n && b[lz] == 0 {
				lz++
			}
			for tz < n && b[n-1-tz] == 0 {
				tz++
			}
			l := n + r.Intn(12) - 4
			if r.Intn(10) == 0 {
				l = vk.Tail(r, 100, 300, 1<<16) - 20
			}
			c.Eval(fmt.Sprint(n, lz, tz, l))
			expect := func(what string, got, want []byte) {
				if !bytes.Equal(got, want) {
					c.Violate(what, "%s of %x (l=%d) gives %x, want %x", what, keep, l, got, want)
				}
				if !bytes.Equal(buf, whole) {
					c.Violate(what+" changed input", "%s changed its input %x to %x", what, whole, buf)
					copy(buf, whole)
				}
			}
			zeros := []byte{}
			for len(zeros)+n < l {
				zeros = append(zeros, 0)
			}
			c.NoPanic(fmt.Sprintf("padding %x to %d", b, l), func() {
				expect("RightPadBytes", common.RightPadBytes(b, l), append(append([]byte{}, keep...), zeros...))
				expect("LeftPadBytes", common.LeftPadBytes(b, l), append(append([]byte{}, zeros...), keep...))
				expect("TrimLeftZeroes", common.TrimLeftZeroes(b), keep[lz:])
				expect("TrimRightZeroes", common.TrimRightZeroes(b), keep[:n-tz])
			})
			// A padded slice is a fresh one; so is a copy.
			fresh := func(what string, s []byte) {
				for j := range s {
					s[j] ^= 0xff
				}
				_ = append(s, 0x55, 0x66)
				expect(what+" then writing to the result", keep, keep)
			}
			if l > n {
				fresh("RightPadBytes", common.RightPadBytes(b, l))
				fresh("LeftPadBytes", common.LeftPadBytes(b, l))
			}
			cp := common.CopyBytes(b)
			expect("CopyBytes", cp, keep)
			c.Hold("CopyBytes", common.CopyBytes(b))
			c.Hold("RightPadBytes", common.RightPadBytes(common.CopyBytes(b), l))
			c.Hold("LeftPadBytes", common.LeftPadBytes(common.CopyBytes(b), l))
			if cp == nil {
				c.Violate("copy nil", "CopyBytes of an empty slice is nil")
			}
			fresh("CopyBytes", cp)

			// Hex.
			hx := hex.EncodeToString(keep)
			if g := common.Bytes2Hex(b); g != hx {
				c.Violate("Bytes2Hex", "Bytes2Hex(%x) = %s", b, g)
			} else {
				c.Hold("Bytes2Hex", g)
			}
			mixed := []byte(hx)
			for j := range mixed {
				if mixed[j] > '9' && r.Intn(2) == 0 {
					mixed[j] -= 32
				}
			}
			lit := string(mixed)
			expect("Hex2Bytes", common.Hex2Bytes(lit), keep)
			pre := []string{"", "0x", "0X"}[r.Intn(3)]
			c.Hold("Hex2Bytes", common.Hex2Bytes(lit))
			c.Hold("FromHex", common.FromHex(pre+lit))
			expect("FromHex", common.FromHex(pre+lit), keep)
			if strings.HasPrefix(lit, "0") {
				expect("FromHex odd", common.FromHex(pre+lit[1:]), keep)
			}
			if l >= 0 {
				want := cropPad(keep, l)
				c.NoPanic(fmt.Sprintf("Hex2BytesFixed(%s, %d)", lit, l), func() {
					expect("Hex2BytesFixed", common.Hex2BytesFixed(lit, l), want)
				})
			}
			// Hex when prefixed, the bytes themselves otherwise.
			s := genLit(r, 2*n)
			cs := bytesClasses(s, true)
			if s == "" {
				cs = []class{empty}
			}
			got, err := common.ParseHexOrString(s)
			c.Eval("parse" + csName(cs) + fmt.Sprint(len(s)))
			switch {
			case len(cs) == 1 && cs[0] == noPrefix:
				if err != nil || string(got) != s {
					c.Violate("parse raw", "ParseHexOrString(%q) = %q, %v", s, got, err)
				}
			case len(cs) == 0:
				if err != nil || !bytes.Equal(got, decodeHex(s[2:])) {
					c.Violate("parse hex", "ParseHexOrString(%q) = %x, %v", s, got, err)
				}
			default:
				if !errFits(err, cs, nil) {
					c.Violate("parse bad", "ParseHexOrString(%q) = %x, %v", s, got, err)
				}
			}
			// Malformed hex never panics, and never yields more than it spells.
			for _, fn := range []func(string) []byte{common.FromHex, common.Hex2Bytes} {
				c.NoPanic(fmt.Sprintf("decoding %q", s), func() {
					if g := fn(s); len(g) > (len(s)+1)/2 {
						c.Violate("too long", "%q decodes to %x", s, g)
					}
				})
			}
			c.Sample("%x lz=%d tz=%d l=%d %q", keep, lz, tz, l, s)
		})
		if common.CopyBytes(nil) != nil {
			c.Violate("nil copy", "CopyBytes(nil) is not nil")
		}
		parallel(c, func(r *rand.Rand) {
			b := genBytes(r, r.Intn(40))
			if !bytes.Equal(common.TrimLeftZeroes(common.LeftPadBytes(common.CopyBytes(b), 48)), common.TrimLeftZeroes(b)) {
				c.ViolateAsync("parallel", "%x", b)
			}
		})
	})
}
