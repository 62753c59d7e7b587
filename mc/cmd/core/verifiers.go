package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/ref"
)

// refInclusion is the reference decision on an inclusion proof.
func refInclusion(p *pb.LogInclusionProofResponse, leaf []byte, head *pb.LogTreeHashResponse) bool {
	if p.TreeSize != head.TreeSize || p.LeafIndex < 0 || p.LeafIndex >= p.TreeSize || len(head.RootHash) != 32 {
		return false
	}
	r, ok := ref.RootFromInclusion(leaf, int(p.LeafIndex), int(p.TreeSize), p.AuditPath)
	return ok && bytes.Equal(r, head.RootHash)
}

func refConsistency(p *pb.LogConsistencyProofResponse, a, b *pb.LogTreeHashResponse) bool {
	if p.FromSize != a.TreeSize || p.TreeSize != b.TreeSize || p.FromSize < 1 || p.FromSize >= p.TreeSize || len(a.RootHash) != 32 || len(b.RootHash) != 32 {
		return false
	}
	o, n, ok := ref.RootsFromConsistency(int(p.FromSize), int(p.TreeSize), true, a.RootHash, p.AuditPath)
	return ok && bytes.Equal(o, a.RootHash) && bytes.Equal(n, b.RootHash)
}

func copyPath(p [][]byte) [][]byte {
	rv := make([][]byte, len(p))
	for i := range p {
		rv[i] = append([]byte{}, p[i]...)
	}
	return rv
}

func testInclusion(x *mck.X, p *pb.LogInclusionProofResponse, leaf []byte, head *pb.LogTreeHashResponse) bool {
	want := refInclusion(p, leaf, head)
	err := verifiable.VerifyLogInclusionProof(p, leaf, head)
	if (err == nil) != want {
		x.Failf("inclusion proof of leaf %x at index %d in size %d with path %x against head size %d root %x: verifier says %v, it should be accepted: %v", leaf, p.LeafIndex, p.TreeSize, p.AuditPath, head.TreeSize, head.RootHash, err, want)
	}
	return want
}

func testConsistency(x *mck.X, p *pb.LogConsistencyProofResponse, a, b *pb.LogTreeHashResponse) bool {
	want := refConsistency(p, a, b)
	err := verifiable.VerifyLogConsistencyProof(p, a, b)
	if (err == nil) != want {
		x.Failf("consistency proof %d-%d with path %x between heads size %d root %x and size %d root %x: verifier says %v, it should be accepted: %v", p.FromSize, p.TreeSize, p.AuditPath, a.TreeSize, a.RootHash, b.TreeSize, b.RootHash, err, want)
	}
	return want
}

func smallTree(n int) *ref.Tree {
	t := &ref.Tree{}
	for i := 0; i < n; i++ {
		t.Add([]byte(fmt.Sprint("leaf", i)))
	}
	return t
}

// nodes lists the distinct hashes of the nodes of the tree of size n.
func nodes(t *ref.Tree, n int) [][]byte {
	var rv [][]byte
	var walk func(a, b int)
	walk = func(a, b int) {
		rv = append(rv, t.MTH(a, b))
		if b-a > 1 {
			k := ref.Split(b - a)
			walk(a, a+k)
			walk(a+k, b)
		}
	}
	walk(0, n)
	return rv
}

var junk = bytes.Repeat([]byte{0x5a}, 32)

func levels(n int) int {
	l := 0
	for 1<<l < n {
		l++
	}
	return l
}

// paths calls f for every sequence over alphabet of length 0..max.
func paths(alphabet [][]byte, max int, f func(p [][]byte)) {
	cur := make([][]byte, 0, max)
	var rec func()
	rec = func() {
		f(cur)
		if len(cur) == max {
			return
		}
		for _, a := range alphabet {
			cur = append(cur, a)
			rec()
			cur = cur[:len(cur)-1]
		}
	}
	rec()
}

var bigSizes = []int{1, 2, 3, 255, 256, 257, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1 << 40, 1<<53 + 1, 1<<61 + 3, 1 << 62, 1<<62 + 1, 1<<62 + 5, math.MaxInt64 - 1, math.MaxInt64}

func pathDeviations(path [][]byte, pool [][]byte, f func(what string, p [][]byte)) {
	for i := range path {
		for b := 0; b < 256; b += 37 {
			p := copyPath(path)
			p[i][b/8] ^= 1 << (b % 8)
			f(fmt.Sprintf("bit %d of element %d flipped", b, i), p)
		}
		f(fmt.Sprintf("element %d dropped", i), append(copyPath(path[:i]), path[i+1:]...))
		f(fmt.Sprintf("truncated to %d", i), copyPath(path[:i]))
		f(fmt.Sprintf("element %d duplicated", i), append(append(copyPath(path[:i+1]), path[i]), path[i+1:]...))
		if i > 0 {
			p := copyPath(path)
			p[i], p[i-1] = p[i-1], p[i]
			f(fmt.Sprintf("elements %d and %d swapped", i-1, i), p)
		}
		p := copyPath(path)
		p[i] = nil
		f(fmt.Sprintf("element %d emptied", i), p)
		p = copyPath(path)
		p[i] = p[i][:31]
		f(fmt.Sprintf("element %d shortened", i), p)
		p = copyPath(path)
		p[i] = append(p[i], 0)
		f(fmt.Sprintf("element %d lengthened", i), p)
		for _, h := range pool {
			p := copyPath(path)
			p[i] = h
			f(fmt.Sprintf("element %d replaced", i), p)
		}
	}
	for i := 0; i <= len(path); i++ {
		for _, h := range append(pool, nil, []byte{}) {
			p := append(append(copyPath(path[:i]), h), path[i:]...)
			f(fmt.Sprintf("element inserted at %d", i), p)
		}
	}
	f("duplicated whole", append(copyPath(path), path...))
	f("many elements", append(copyPath(path), make([][]byte, 70)...))
}

func checkInclusionVerifier(c *mck.C) {
	maxN := c.Pick(6, 8)
	c.Explore("every path over a tree's nodes", func(x *mck.X) {
		n := 1 + x.Choose(maxN, "tree size")
		t := smallTree(n + 1)
		claim := x.Range(-1, n+1, "claimed index")
		sz := n + x.Range(-1, 1, "claimed size delta")
		alpha := append(nodes(t, n), junk, nil)
		leaves := nodes(t, n)
		leaf := leaves[x.Choose(len(leaves), "leaf")]
		head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n)}
		max := levels(n) + 1
		if max > 4 {
			max = 4
		}
		x.Logf("tree of %d, claimed index %d size %d leaf %x", n, claim, sz, leaf)
		cnt, acc := 0, 0
		paths(alpha, max, func(p [][]byte) {
			cnt++
			if testInclusion(x, &pb.LogInclusionProofResponse{TreeSize: int64(sz), LeafIndex: int64(claim), AuditPath: p}, leaf, head) {
				acc++
			}
		})
		c.Transition(cnt)
		c.Trace(cnt)
		c.State("incl", n, claim, sz, fmt.Sprintf("%x", leaf))
		c.Sample("paths over nodes", "%s: %d paths, %d accepted", x.TraceString(), cnt, acc)
	})
	big := c.Pick(40, 140)
	c.Explore("deviations from honest proofs", func(x *mck.X) {
		n := 1 + x.Choose(big, "tree size")
		m := x.Choose(n, "index")
		t := smallTree(n + 2)
		head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n)}
		path := t.Path(m, 0, n)
		x.Logf("tree of %d, index %d", n, m)
		cnt := 0
		test := func(idx, sz int64, p [][]byte, leaf []byte, h *pb.LogTreeHashResponse) {
			cnt++
			testInclusion(x, &pb.LogInclusionProofResponse{TreeSize: sz, LeafIndex: idx, AuditPath: p}, leaf, h)
		}
		x.Assert(testInclusion(x, &pb.LogInclusionProofResponse{TreeSize: int64(n), LeafIndex: int64(m), AuditPath: path}, t.L[m], head), "harness: honest proof not accepted by the reference")
		for j := int64(-2); j < int64(n+2); j++ {
			test(j, int64(n), path, t.L[m], head)
		}
		for _, j := range bigSizes {
			test(int64(j), int64(n), path, t.L[m], head)
			test(int64(m)+int64(j)&^1, int64(n), path, t.L[m], head)
			test(int64(m), int64(j), path, t.L[m], head)
			test(int64(m), int64(j), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: t.Root(n)})
			test(-int64(j), int64(n), path, t.L[m], head)
			test(int64(m), -int64(j), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: -int64(j), RootHash: t.Root(n)})
		}
		for d := -2; d <= 2; d++ {
			test(int64(m), int64(n+d), path, t.L[m], head)
			test(int64(m), int64(n+d), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n + d), RootHash: head.RootHash})
			if n+d >= 1 {
				test(int64(m), int64(n+d), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n + d), RootHash: t.Root(n + d)})
				test(int64(m), int64(n), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n + d)})
			}
		}
		for i := range t.L {
			test(int64(m), int64(n), path, t.L[i], head)
		}
		for _, l := range append(nodes(t, n), junk) {
			test(int64(m), int64(n), path, l, head)
		}
		for _, r := range [][]byte{nil, {}, junk, t.L[m], head.RootHash[:31], append(append([]byte{}, head.RootHash...), 0)} {
			test(int64(m), int64(n), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: r})
		}
		pool := [][]byte{junk, t.L[m], head.RootHash, t.L[0]}
		pathDeviations(path, pool, func(_ string, p [][]byte) {
			test(int64(m), int64(n), p, t.L[m], head)
			test(int64(m^1), int64(n), p, t.L[m], head)
		})
		c.Transition(cnt)
		c.Trace(cnt)
		c.State("dev", n, m)
		c.Sample("deviations", "%s: %d deviations", x.TraceString(), cnt)
	})
	c.Explore("huge trees", func(x *mck.X) {
		b := ref.NewBig(ref.Leaf([]byte("same")))
		n := bigSizes[x.Choose(len(bigSizes), "size")]
		m := bigSizes[x.Choose(len(bigSizes), "index")] - 1
		if m >= n {
			x.Prune()
		}
		head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: b.Root(n)}
		p := b.Path(m, n)
		x.Logf("tree of %d, index %d", n, m)
		ok := testInclusion(x, &pb.LogInclusionProofResponse{TreeSize: int64(n), LeafIndex: int64(m), AuditPath: p}, ref.Leaf([]byte("same")), head)
		x.Assert(ok, "harness: honest proof")
		for _, j := range bigSizes {
			testInclusion(x, &pb.LogInclusionProofResponse{TreeSize: int64(n), LeafIndex: int64(j), AuditPath: p}, ref.Leaf([]byte("same")), head)
			testInclusion(x, &pb.LogInclusionProofResponse{TreeSize: int64(j), LeafIndex: int64(m), AuditPath: p}, ref.Leaf([]byte("same")), &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: head.RootHash})
		}
		c.Transition(1)
		c.Trace(1)
		c.State("huge", n, m)
	})
}

func checkConsistencyVerifier(c *mck.C) {
	maxN := c.Pick(6, 8)
	c.Explore("every path over a tree's nodes", func(x *mck.X) {
		n := 1 + x.Choose(maxN, "tree size")
		m := x.Range(-1, n+1, "from size")
		t := smallTree(n + 1)
		seen := map[string]bool{}
		var alpha [][]byte
		add := func(l [][]byte) {
			for _, h := range l {
				if !seen[string(h)] {
					seen[string(h)] = true
					alpha = append(alpha, h)
				}
			}
		}
		add(nodes(t, n))
		if m >= 1 && m <= n {
			add(nodes(t, m))
		}
		roots := append([][]byte{}, alpha...)
		alpha = append(alpha, junk, nil)
		roots = append(roots, junk, nil)
		first := roots[x.Choose(len(roots), "first root")]
		second := t.Root(n)
		if x.Bool("second root is not the tree's") {
			second = roots[x.Choose(len(roots), "second root")]
		}
		a := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: first}
		b := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: second}
		max := levels(n) + 1
		if max > 3 {
			max = 3
		}
		if m >= 1 && m <= n && bytes.Equal(first, t.Root(m)) && bytes.Equal(second, t.Root(n)) {
			max = levels(n) + 1
		}
		x.Logf("sizes %d-%d roots %x %x", m, n, first, second)
		cnt, acc := 0, 0
		paths(alpha, max, func(p [][]byte) {
			cnt++
			if testConsistency(x, &pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(n), AuditPath: p}, a, b) {
				acc++
			}
		})
		c.Transition(cnt)
		c.Trace(cnt)
		c.State("cons", n, m, fmt.Sprintf("%x %x", first, second))
		c.Sample("paths over nodes", "%s: %d paths, %d accepted", x.TraceString(), cnt, acc)
	})
	big := c.Pick(40, 140)
	c.Explore("deviations from honest proofs", func(x *mck.X) {
		n := 2 + x.Choose(big, "tree size")
		m := 1 + x.Choose(n-1, "from size")
		t := smallTree(n + 2)
		fork := &ref.Tree{L: append([][]byte{ref.Leaf([]byte("forked"))}, t.L[1:]...)}
		a := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: t.Root(m)}
		b := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n)}
		path := t.Proof(m, n)
		x.Logf("%d-%d", m, n)
		cnt := 0
		test := func(from, to int64, p [][]byte, a, b *pb.LogTreeHashResponse) {
			cnt++
			testConsistency(x, &pb.LogConsistencyProofResponse{FromSize: from, TreeSize: to, AuditPath: p}, a, b)
		}
		x.Assert(testConsistency(x, &pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(n), AuditPath: path}, a, b), "harness: honest proof not accepted by the reference")
		sizes := append([]int{-2, -1, 0, m - 1, m + 1, n - 1, n + 1, n, m}, bigSizes...)
		for _, s := range sizes {
			s := int64(s)
			test(s, int64(n), path, a, b)
			test(int64(m), s, path, a, b)
			test(s, int64(n), path, &pb.LogTreeHashResponse{TreeSize: s, RootHash: a.RootHash}, b)
			test(int64(m), s, path, a, &pb.LogTreeHashResponse{TreeSize: s, RootHash: b.RootHash})
		}
		heads := []([]byte){nil, {}, junk, t.Root(m), t.Root(n), fork.Root(m), fork.Root(n), t.Root(n + 1), t.L[0], a.RootHash[:31], append(append([]byte{}, a.RootHash...), 0)}
		for _, h := range heads {
			for _, h2 := range heads {
				test(int64(m), int64(n), path, &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: h}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: h2})
				test(int64(m), int64(n), fork.Proof(m, n), &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: h}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: h2})
			}
		}
		for o := 1; o < n; o++ {
			test(int64(m), int64(n), t.Proof(o, n), a, b)
			test(int64(m), int64(n), fork.Proof(o, n), a, b)
		}
		pathDeviations(path, [][]byte{junk, a.RootHash, b.RootHash, t.L[0]}, func(_ string, p [][]byte) {
			test(int64(m), int64(n), p, a, b)
		})
		c.Transition(cnt)
		c.Trace(cnt)
		c.State("dev", n, m)
		c.Sample("deviations", "%s: %d deviations", x.TraceString(), cnt)
	})
	c.ExploreSerial("huge trees", func(x *mck.X) {
		b := ref.NewBig(ref.Leaf([]byte("same")))
		n := bigSizes[x.Choose(len(bigSizes), "size")]
		m := bigSizes[x.Choose(len(bigSizes), "from")]
		if m >= n {
			x.Prune()
		}
		p := b.Proof(m, n)
		x.Logf("%d-%d", m, n)
		ok := testConsistency(x, &pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(n), AuditPath: p}, &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: b.Root(m)}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: b.Root(n)})
		x.Assert(ok, "harness: honest proof")
		for _, j := range bigSizes {
			testConsistency(x, &pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(j), AuditPath: p}, &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: b.Root(m)}, &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: b.Root(n)})
			testConsistency(x, &pb.LogConsistencyProofResponse{FromSize: int64(j), TreeSize: int64(n), AuditPath: p}, &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: b.Root(m)}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: b.Root(n)})
		}
		c.Transition(1)
		c.Trace(1)
		c.State("huge", n, m)
	})
}

func init() {
	mck.Register(mck.Check{ID: "L04", Run: checkInclusionVerifier, MaxRun: 60e9})
	mck.Register(mck.Check{ID: "L05", Run: checkConsistencyVerifier, MaxRun: 60e9})
}
