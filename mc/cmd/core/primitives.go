package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/ref"
)

func init() {
	mck.Register(mck.Check{ID: "P01", Budget: 60 * time.Second, Run: runP01,
		Rule: "every bit string of up to 11 bits (13 thorough) built by joining single bits in every order of association, every slice of it, every join of two strings of up to 6 bits; every slice of 256-bit key paths, and joins of slices of every pair of lengths with a total of at most 256; compared with strings of 0 and 1"})
	mck.Register(mck.Check{ID: "P02", Budget: 60 * time.Second, Run: runP02,
		Rule: "audit paths and consistency ranges for every size up to 130 (400 thorough), every index and several offsets, and for sizes within 3 of every power of two up to 2^63-1 with indices near every structural boundary; powers of two for all sizes up to 2^17 and around every power of two; hashes and defaults for a set of inputs; compared with RFC 6962 definitions written independently"})
}

// sameBits compares a path with its bits in every observable way.
func sameBits(x *mck.X, b verifiable.BPath, bits string, what string) {
	x.Assert(b.Length() == uint(len(bits)), "%s: length is %d, want %d", what, b.Length(), len(bits))
	for i := range bits {
		x.Assert(b.At(uint(i)) == (bits[i] == '1'), "%s: bit %d is %v, want %c of %s", what, i, b.At(uint(i)), bits[i], bits)
	}
	x.Assert(b.Str() == bits, "%s: prints as %s, want %s", what, b.Str(), bits)
}

func mkPath(bits string) verifiable.BPath {
	p := verifiable.BPathEmpty
	for i := range bits {
		if bits[i] == '1' {
			p = verifiable.BPathJoin(p, verifiable.BPathTrue)
		} else {
			p = verifiable.BPathJoin(p, verifiable.BPathFalse)
		}
	}
	return p
}

func mkPathR(bits string) verifiable.BPath {
	p := verifiable.BPath(nil)
	for i := len(bits) - 1; i >= 0; i-- {
		if bits[i] == '1' {
			p = verifiable.BPathJoin(verifiable.BPathTrue, p)
		} else {
			p = verifiable.BPathJoin(verifiable.BPathFalse, p)
		}
	}
	return p
}

func chooseBits(x *mck.X, max int, label string) string {
	n := x.Range(0, max, label+" length")
	v := 0
	if n > 0 {
		v = x.Choose(1<<uint(n), label)
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%0*b", n, v)
}

func runP01(c *mck.C) {
	maxN := c.Pick(11, 13)
	// All encodings, by content.
	seen := map[string]string{}
	c.ExploreSerial("encodings", func(x *mck.X) {
		bits := chooseBits(x, maxN, "bits")
		p := mkPath(bits)
		if old, ok := seen[string(p)]; ok && old != bits {
			x.Failf("%q and %q have the same encoding %x", old, bits, []byte(p))
		}
		seen[string(p)] = bits
		c.State("enc", string(p))
	})
	c.Explore("slices", func(x *mck.X) {
		bits := chooseBits(x, maxN, "bits")
		p := mkPath(bits)
		before := string(p)
		sameBits(x, p, bits, "joined left to right "+bits)
		q := mkPathR(bits)
		x.Assert(bytes.Equal(p, q), "%s has encodings %x and %x", bits, []byte(p), []byte(q))
		for i := 0; i <= len(bits); i++ {
			for j := 0; j <= len(bits); j++ {
				s := p.Slice(uint(i), uint(j))
				want := ""
				if i < j {
					want = bits[i:j]
				}
				sameBits(x, s, want, fmt.Sprintf("slice [%d:%d] of %s", i, j, bits))
				x.Assert(bytes.Equal(s, mkPath(want)), "slice [%d:%d] of %s is encoded as %x", i, j, bits, []byte(s))
				c.Eval(true, "slice", bits, i, j)
			}
		}
		for i := 0; i <= len(bits); i++ {
			j := verifiable.BPathJoin(p.Slice(0, uint(i)), p.Slice(uint(i), p.Length()))
			x.Assert(bytes.Equal(j, p), "%s cut at %d and joined is %s", bits, i, j.Str())
		}
		x.Assert(string(p) == before, "slicing %s changed it", bits)
		c.Transition(len(bits) * len(bits))
		c.Trace(1)
	})
	c.Explore("joins", func(x *mck.X) {
		a, b := chooseBits(x, c.Pick(6, 7), "a"), chooseBits(x, c.Pick(6, 7), "b")
		pa, pb := mkPath(a), mkPath(b)
		sa, sb := string(pa), string(pb)
		j := verifiable.BPathJoin(pa, pb)
		sameBits(x, j, a+b, "join of "+a+" and "+b)
		x.Assert(bytes.Equal(j, mkPath(a+b)), "join of %s and %s is encoded as %x", a, b, []byte(j))
		for i := range j {
			j[i] ^= 0xff
		}
		x.Assert(string(pa) == sa && string(pb) == sb, "join of %s and %s shares memory with its parts", a, b)
		c.Eval(true, "join", a, b)
		c.Trace(1)
	})
	keys := []string{"", "foo", "k1077278", "\x00\xff", strings.Repeat("x", 1000)}
	for i := 0; i < c.Pick(2, 12); i++ {
		keys = append(keys, fmt.Sprintf("key %d", i))
	}
	c.Explore("keys", func(x *mck.X) {
		key := []byte(keys[x.Choose(len(keys), "key")])
		p := verifiable.BPathFromKey(key)
		h := sha256.Sum256(key)
		bits := ""
		for _, b := range h {
			bits += fmt.Sprintf("%08b", b)
		}
		sameBits(x, p, bits, fmt.Sprintf("path of key %q", key))
		mp := merkle.ConstructMapKeyPath(key)
		x.Assert(len(mp) == 256, "merkle path of %q has %d bits", key, len(mp))
		for i := range mp {
			x.Assert(mp[i] == (bits[i] == '1'), "bit %d of the merkle path of %q", i, key)
		}
		i := x.Range(0, 256, "from")
		for j := 0; j <= 256; j++ {
			s := p.Slice(uint(i), uint(j))
			want := ""
			if i < j {
				want = bits[i:j]
			}
			x.Assert(s.Length() == uint(len(want)) && s.Str() == want, "slice [%d:%d] of the path of %q is %s, want %s", i, j, key, s.Str(), want)
			// every length of prefix and suffix, joined back
			if j >= i {
				w := verifiable.BPathJoin(verifiable.BPathJoin(p.Slice(0, uint(i)), s), p.Slice(uint(j), 256))
				x.Assert(bytes.Equal(w, p), "the path of %q cut at %d and %d and joined is %s", key, i, j, w.Str())
			}
			c.Eval(true, "kslice", string(key), i, j)
		}
		c.Trace(1)
	})
	c.Explore("lengths", func(x *mck.X) {
		la := x.Range(0, 256, "a length")
		pat := x.Choose(4, "pattern")
		gen := func(n, off int) string {
			b := make([]byte, n)
			for i := range b {
				v := 0
				switch pat {
				case 1:
					v = 1
				case 2:
					v = (i + off) & 1
				case 3:
					if i == n-1 || i == 0 {
						v = 1
					}
				}
				b[i] = byte('0' + v)
			}
			return string(b)
		}
		// long paths from doubling
		long := func(bits string) verifiable.BPath {
			if len(bits) <= 1 {
				return mkPath(bits)
			}
			l := verifiable.BPathEmpty
			for i := 0; i < len(bits); i += 37 {
				e := i + 37
				if e > len(bits) {
					e = len(bits)
				}
				l = verifiable.BPathJoin(l, mkPath(bits[i:e]))
			}
			return l
		}
		a := gen(la, 0)
		pa := long(a)
		sameBits(x, pa, a, "long path")
		for lb := 0; la+lb <= 256; lb++ {
			b := gen(lb, 1)
			if lb > 40 && la+lb < 250 && lb%16 > 1 {
				continue
			}
			j := verifiable.BPathJoin(pa, long(b))
			x.Assert(j.Length() == uint(la+lb) && j.Str() == a+b, "join of %s and %s is %s", a, b, j.Str())
			c.Eval(true, "len", la, lb, pat)
		}
		c.Trace(1)
	})
}

// refPath is RFC 6962 PATH(m, D[a:b]) as ranges of leaves.
func refPath(m, a, b int64) [][2]int64 {
	if b-a == 1 {
		return nil
	}
	k := pow2Below(b - a)
	if m < k {
		return append(refPath(m, a, a+k), [2]int64{a + k, b})
	}
	return append(refPath(m-k, a+k, b), [2]int64{a, a + k})
}

func refSub(m, a, b int64, whole bool) [][2]int64 {
	if m == b-a {
		if whole {
			return nil
		}
		return [][2]int64{{a, b}}
	}
	k := pow2Below(b - a)
	if m <= k {
		return append(refSub(m, a, a+k, whole), [2]int64{a + k, b})
	}
	return append(refSub(m-k, a+k, b, false), [2]int64{a, a + k})
}

// pow2Below is the largest power of two below n (n > 1), by counting bits.
func pow2Below(n int64) int64 {
	b := uint(0)
	for v := uint64(n - 1); v > 1; v >>= 1 {
		b++
	}
	return int64(1) << b
}

func sameRanges(a, b [][2]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runP02(c *mck.C) {
	// sizes near every power of two
	var sizes []int64
	for e := uint(0); e < 63; e++ {
		for d := int64(-3); d <= 3; d++ {
			v := int64(1)<<e + d
			if v >= 1 {
				sizes = append(sizes, v)
			}
		}
	}
	for d := int64(0); d < 4; d++ {
		sizes = append(sizes, math.MaxInt64-d)
	}
	checkK := func(x *mck.X, n int64) {
		if n >= 2 {
			k := merkle.CalcK(n)
			x.Assert(k == pow2Below(n), "largest power of two below %d: %d, want %d", n, k, pow2Below(n))
		}
		if n >= 1 && n < math.MaxInt64 {
			p := merkle.IsPow2(n)
			x.Assert(p == (n&(n-1) == 0), "IsPow2(%d) = %v", n, p)
		}
		c.Eval(true, "k", n)
	}
	c.Explore("powers", func(x *mck.X) {
		if x.Bool("dense") {
			blk := x.Choose(128, "block")
			for n := int64(blk) * 1024; n < int64(blk+1)*1024; n++ {
				checkK(x, n)
			}
		} else {
			for _, n := range sizes {
				checkK(x, n)
			}
		}
		c.Trace(1)
	})
	max := c.Pick(130, 400)
	c.Explore("ranges", func(x *mck.X) {
		n := int64(x.Range(1, max, "size"))
		for _, off := range []int64{0, 1, 64, 1000, 1 << 40} {
			for m := int64(0); m < n; m++ {
				g, w := merkle.Path(m, off, off+n), refPath(m, off, off+n)
				x.Assert(sameRanges(g, w), "Path(%d, %d, %d) = %v, want %v", m, off, off+n, g, w)
				for _, whole := range []bool{true, false} {
					g, w = merkle.SubProof(m+1, off, off+n, whole), refSub(m+1, off, off+n, whole)
					x.Assert(sameRanges(g, w), "SubProof(%d, %d, %d, %v) = %v, want %v", m+1, off, off+n, whole, g, w)
				}
				c.Eval(true, "r", n, m, off)
			}
		}
		c.State("n", n)
		c.Trace(1)
	})
	c.Explore("large", func(x *mck.X) {
		n := sizes[x.Choose(len(sizes), "size")]
		ms := map[int64]bool{}
		for _, base := range []int64{0, n - 1, pow2Below(n + b2i(n < 2)), n / 2, n / 3} {
			for d := int64(-2); d <= 2; d++ {
				ms[base+d] = true
			}
		}
		for e := uint(0); e < 63; e++ {
			ms[int64(1)<<e] = true
			ms[n-int64(1)<<e] = true
			ms[int64(1)<<e-1] = true
		}
		for m := range ms {
			if m >= 0 && m < n {
				g, w := merkle.Path(m, 0, n), refPath(m, 0, n)
				x.Assert(sameRanges(g, w), "Path(%d, 0, %d) = %v, want %v", m, n, g, w)
			}
			if m >= 1 && m <= n {
				g, w := merkle.SubProof(m, 0, n, true), refSub(m, 0, n, true)
				x.Assert(sameRanges(g, w), "SubProof(%d, 0, %d, true) = %v, want %v", m, n, g, w)
			}
			c.Eval(true, "L", n, m)
		}
		c.Trace(1)
	})
	c.Explore("hashes", func(x *mck.X) {
		ins := [][]byte{nil, {}, {0}, {1}, []byte("a"), ref.Leaf(nil), bytes.Repeat([]byte{7}, 31), bytes.Repeat([]byte{7}, 33), bytes.Repeat([]byte{7}, 5000)}
		for l := 0; l <= 130; l++ {
			ins = append(ins, bytes.Repeat([]byte{9}, l))
		}
		a := ins[x.Choose(len(ins), "a")]
		x.Assert(bytes.Equal(merkle.LeafHash(a), ref.Leaf(a)), "leaf hash of %x", a)
		for _, b := range ins {
			x.Assert(bytes.Equal(merkle.NodeHash(a, b), ref.Node(a, b)), "node hash of %x and %x", a, b)
			c.Eval(true, "h", string(a), string(b))
		}
		d := merkle.GenerateMapDefaultLeafValues()
		x.Assert(len(d) == 257, "there are %d default leaf values", len(d))
		for i := range d {
			x.Assert(bytes.Equal(d[i], ref.Default[i]), "default value at depth %d is %x, want %x", i, d[i], ref.Default[i])
			for j := range d[i] {
				d[i][j] = 0 // it is a copy
			}
		}
		d = merkle.GenerateMapDefaultLeafValues()
		for i := range d {
			x.Assert(bytes.Equal(d[i], ref.Default[i]), "default value at depth %d changed with a copy", i)
		}
		p := merkle.ConstructMapKeyPath(a)
		h := ref.KeyPath(a)
		x.Assert(len(p) == 256, "key path of %x has %d bits", a, len(p))
		for i := range p {
			x.Assert(p[i] == (ref.Bit(h, i) == 1), "bit %d of the key path of %x", i, a)
		}
		c.Trace(1)
	})
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
