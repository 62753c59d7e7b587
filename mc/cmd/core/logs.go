package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"google.golang.org/grpc/codes"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

var ctx = context.Background()

// logWorld is a log of the code under test together with its reference tree.
type logWorld struct {
	kind string
	log  *verifiable.Log
	tree *ref.Tree
	data []*pb.LeafData // as first added, nil where the harness did not choose it
}

func (w *logWorld) n() int { return len(w.tree.L) }

func entryBytes(i int) string {
	switch i % 7 {
	case 0:
		return fmt.Sprintf("entry-%d", i)
	case 1:
		return string([]byte{0, byte(i), byte(i >> 8)})
	case 2:
		return fmt.Sprintf("%0200d", i)
	default:
		return fmt.Sprint(i)
	}
}

func buildUserLog(x *mck.X, s world.Service, name string, n int) *logWorld {
	w := &logWorld{kind: "user log", log: world.Log(s, name), tree: &ref.Tree{}}
	for i := 0; i < n; i++ {
		in := entryBytes(i)
		if i == 5 {
			in = "" // the empty entry is an entry
		}
		d := world.Leaf(in, fmt.Sprintf("extra %d", i))
		if i%3 == 0 {
			d.ExtraData = []byte(fmt.Sprintf("{\"n\":%d}", i))
			d.Format = pb.DataFormat_JSON
		}
		w.add(x, d)
	}
	return w
}

func (w *logWorld) add(x *mck.X, d *pb.LeafData) {
	p, err := w.log.Add(ctx, d)
	x.Assert(err == nil, "add to %s failed: %v", w.kind, err)
	x.Assert(bytes.Equal(p.LeafHash(), ref.Leaf(d.LeafInput)), "add returned leaf hash %x for %q, want %x", p.LeafHash(), d.LeafInput, ref.Leaf(d.LeafInput))
	w.tree.Add(d.LeafInput)
	w.data = append(w.data, d)
}

// mapLogs performs n mutations and returns the mutation and tree head logs of
// the map, with reference trees built from their entries.
func mapLogs(x *mck.X, s world.Service, name string, n int) (*verifiable.Map, *logWorld, *logWorld) {
	m := world.Map(s, name)
	for i := 0; i < n; i++ {
		var err error
		switch i % 5 {
		case 0, 1, 2:
			_, err = m.Set(ctx, []byte(fmt.Sprint("key", i%9)), world.Leaf(fmt.Sprint("v", i), ""))
		case 3:
			_, err = m.Delete(ctx, []byte(fmt.Sprint("key", i%9)))
		case 4: // no-op update
			_, err = m.Update(ctx, []byte(fmt.Sprint("key", i%9)), world.Leaf(fmt.Sprint("w", i), ""), []byte("nothing"))
		}
		x.Assert(err == nil, "map mutation %d failed: %v", i, err)
	}
	mk := func(kind string, l *verifiable.Log) *logWorld {
		w := &logWorld{kind: kind, log: l, tree: &ref.Tree{}}
		for i := 0; i < n; i++ {
			e, err := l.Entry(ctx, int64(i))
			x.Assert(err == nil, "%s entry %d of %d: %v", kind, i, n, err)
			w.tree.Add(e.GetLeafInput())
			w.data = append(w.data, e)
		}
		return w
	}
	return m, mk("mutation log", m.MutationLog()), mk("tree head log", m.TreeHeadLog())
}

var badSizes = []int64{-1, -2, math.MinInt64, math.MaxInt64, 1 << 40}

func checkRoots(x *mck.X, w *logWorld) {
	n := w.n()
	for i := 1; i <= n; i++ {
		h, err := w.log.TreeHead(ctx, int64(i))
		x.Assert(err == nil, "%s: tree head at %d of %d: %v", w.kind, i, n, err)
		x.Assert(h.TreeSize == int64(i), "%s: tree head asked at %d of %d says size %d", w.kind, i, n, h.TreeSize)
		x.Assert(bytes.Equal(h.RootHash, w.tree.Root(i)), "%s: root at size %d of %d is %x, RFC 6962 says %x", w.kind, i, n, h.RootHash, w.tree.Root(i))
	}
	h, err := w.log.TreeHead(ctx, verifiable.Head)
	x.Assert(err == nil && h.TreeSize == int64(n), "%s: latest head of %d entries: %v %v", w.kind, n, h, err)
	if n > 0 {
		x.Assert(bytes.Equal(h.RootHash, w.tree.Root(n)), "%s: latest root at %d is %x, want %x", w.kind, n, h.RootHash, w.tree.Root(n))
	}
	for _, b := range append([]int64{int64(n + 1), int64(n + 2)}, badSizes...) {
		h, err := w.log.TreeHead(ctx, b)
		x.Assert(err != nil, "%s of %d entries: tree head at %d answered %v", w.kind, n, b, h)
	}
	x.C.Transition(n + 1 + len(badSizes))
	x.C.Trace(1)
}

func checkInclusion(x *mck.X, w *logWorld, n int) {
	head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: w.tree.Root(n)}
	for m := 0; m < n; m++ {
		want := w.tree.Path(m, 0, n)
		for how := 0; how < 2; how++ {
			var p *pb.LogInclusionProofResponse
			var err error
			if how == 0 {
				p, err = w.log.InclusionProof(ctx, int64(n), w.tree.L[m])
			} else {
				p, err = w.log.InclusionProofByIndex(ctx, int64(n), int64(m))
			}
			x.Assert(err == nil, "%s: inclusion proof of entry %d in size %d (of %d, how %d): %v", w.kind, m, n, w.n(), how, err)
			x.Assert(p.LeafIndex == int64(m) && p.TreeSize == int64(n), "%s: inclusion proof of entry %d in size %d is for index %d size %d", w.kind, m, n, p.LeafIndex, p.TreeSize)
			x.Assert(ref.Eq(p.AuditPath, want), "%s: audit path of entry %d in size %d is not the RFC 6962 one:\n got %x\nwant %x", w.kind, m, n, p.AuditPath, want)
			err = verifiable.VerifyLogInclusionProof(p, w.tree.L[m], head)
			x.Assert(err == nil, "%s: correct inclusion proof of entry %d in size %d rejected: %v", w.kind, m, n, err)
		}
		if n <= 20 || m == n-1 || m == 0 {
			err := w.log.VerifyInclusion(ctx, head, w.tree.L[m])
			x.Assert(err == nil, "%s: VerifyInclusion of entry %d in size %d: %v", w.kind, m, n, err)
			h2, err := w.log.VerifySuppliedInclusionProof(ctx, nil, &pb.LogInclusionProofResponse{LeafIndex: int64(m), TreeSize: int64(n), AuditPath: want}, w.tree.L[m])
			x.Assert(err == nil && h2.TreeSize == int64(n) && bytes.Equal(h2.RootHash, w.tree.Root(n)), "%s: VerifySuppliedInclusionProof of entry %d in size %d: %v %v", w.kind, m, n, h2, err)
		}
		x.C.Transition(2)
	}
	// rejections
	for _, idx := range append([]int64{int64(n), int64(n + 1), int64(w.n())}, badSizes...) {
		p, err := w.log.InclusionProofByIndex(ctx, int64(n), idx)
		x.Assert(err != nil, "%s of %d: inclusion proof of index %d in size %d answered: %v", w.kind, w.n(), idx, n, p)
	}
	for m := n; m < w.n() && m < n+3; m++ {
		p, err := w.log.InclusionProof(ctx, int64(n), w.tree.L[m])
		x.Assert(err != nil, "%s of %d: inclusion proof of entry %d in size %d answered: %v", w.kind, w.n(), m, n, p)
	}
	unknown := [][]byte{ref.Leaf([]byte("never added")), {1}, append(append([]byte{}, w.tree.L[0]...), 0), w.tree.L[0][:31]}
	if n > 1 {
		unknown = append(unknown, w.tree.Root(n))
	}
	for _, lh := range unknown {
		p, err := w.log.InclusionProof(ctx, int64(n), lh)
		x.Assert(err != nil, "%s: inclusion proof of unknown leaf %x answered: %v", w.kind, lh, p)
		x.Assert(world.Code(err) == codes.NotFound || err == verifiable.ErrNotFound, "%s: inclusion proof of unknown leaf %x fails with %v, want a not-found error", w.kind, lh, err)
	}
	for _, b := range append([]int64{int64(w.n() + 1)}, badSizes...) {
		p, err := w.log.InclusionProofByIndex(ctx, b, 0)
		x.Assert(err != nil, "%s of %d: inclusion proof in size %d answered: %v", w.kind, w.n(), b, p)
		p, err = w.log.InclusionProof(ctx, b, w.tree.L[0])
		x.Assert(err != nil, "%s of %d: inclusion proof by hash in size %d answered: %v", w.kind, w.n(), b, p)
	}
	if n == w.n() {
		for m := 0; m < n; m += 1 + n/8 {
			p, err := w.log.InclusionProof(ctx, 0, w.tree.L[m])
			x.Assert(err == nil && p.TreeSize == int64(n) && p.LeafIndex == int64(m) && ref.Eq(p.AuditPath, w.tree.Path(m, 0, n)), "%s: inclusion proof of %d in the latest tree of %d: %v %v", w.kind, m, n, p, err)
		}
	}
	x.C.Trace(n)
}

func checkConsistency(x *mck.X, w *logWorld, n int) {
	b := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: w.tree.Root(n)}
	for m := 1; m < n; m++ {
		p, err := w.log.ConsistencyProof(ctx, int64(m), int64(n))
		x.Assert(err == nil, "%s of %d: consistency proof %d-%d: %v", w.kind, w.n(), m, n, err)
		want := w.tree.Proof(m, n)
		x.Assert(p.FromSize == int64(m) && p.TreeSize == int64(n) && ref.Eq(p.AuditPath, want), "%s: consistency proof %d-%d is not the RFC 6962 one:\n got %d-%d %x\nwant %x", w.kind, m, n, p.FromSize, p.TreeSize, p.AuditPath, want)
		a := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: w.tree.Root(m)}
		err = verifiable.VerifyLogConsistencyProof(p, a, b)
		x.Assert(err == nil, "%s: correct consistency proof %d-%d rejected: %v", w.kind, m, n, err)
		if n <= 20 || m < 3 || m > n-3 {
			err = w.log.VerifyConsistency(ctx, a, b)
			x.Assert(err == nil, "%s: VerifyConsistency(%d,%d): %v", w.kind, m, n, err)
			err = w.log.VerifyConsistency(ctx, b, a)
			x.Assert(err == nil, "%s: VerifyConsistency(%d,%d): %v", w.kind, n, m, err)
			h, err := w.log.VerifiedTreeHead(ctx, a, int64(n))
			x.Assert(err == nil && h.TreeSize == int64(n) && bytes.Equal(h.RootHash, b.RootHash), "%s: VerifiedTreeHead(%d -> %d): %v %v", w.kind, m, n, h, err)
			h, err = w.log.VerifiedTreeHead(ctx, b, int64(m))
			x.Assert(err == nil && h.TreeSize == int64(m) && bytes.Equal(h.RootHash, a.RootHash), "%s: VerifiedTreeHead(%d -> %d): %v %v", w.kind, n, m, h, err)
			h, err = w.log.VerifiedLatestTreeHead(ctx, a)
			x.Assert(err == nil && h.TreeSize == int64(w.n()) && bytes.Equal(h.RootHash, w.tree.Root(w.n())), "%s: VerifiedLatestTreeHead(%d): %v %v", w.kind, m, h, err)
		}
		x.C.Transition(1)
	}
	x.Assert(w.log.VerifyConsistency(ctx, b, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: w.tree.Root(n)}) == nil, "%s: VerifyConsistency(%d,%d)", w.kind, n, n)
	for _, m := range append([]int64{0, int64(n), int64(n + 1), int64(w.n() + 1)}, badSizes...) {
		p, err := w.log.ConsistencyProof(ctx, m, int64(n))
		x.Assert(err != nil, "%s of %d: consistency proof %d-%d answered: %v", w.kind, w.n(), m, n, p)
	}
	for _, m := range append([]int64{int64(w.n() + 1)}, badSizes...) {
		p, err := w.log.ConsistencyProof(ctx, int64(n), m)
		x.Assert(err != nil, "%s of %d: consistency proof %d-%d answered: %v", w.kind, w.n(), n, m, p)
	}
	if n < w.n() {
		p, err := w.log.ConsistencyProof(ctx, int64(n), 0)
		x.Assert(err == nil && p.TreeSize == int64(w.n()) && p.FromSize == int64(n) && ref.Eq(p.AuditPath, w.tree.Proof(n, w.n())), "%s: consistency proof %d-latest(%d): %v %v", w.kind, n, w.n(), p, err)
	} else {
		p, err := w.log.ConsistencyProof(ctx, int64(n), 0)
		x.Assert(err != nil, "%s of %d: consistency proof %d-0 answered: %v", w.kind, w.n(), n, p)
	}
	x.C.Trace(n)
}

func checkEntries(x *mck.X, w *logWorld, first, last int) {
	want := w.data[first:last]
	resp, err := w.log.Service.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: w.log.Log, First: int64(first), Last: int64(last)})
	x.Assert(err == nil, "%s of %d: entries [%d,%d): %v", w.kind, w.n(), first, last, err)
	x.Assert(len(resp.Values) == len(want), "%s of %d: entries [%d,%d) gave %d", w.kind, w.n(), first, last, len(resp.Values))
	for i := range want {
		x.Assert(world.SameLeaf(resp.Values[i], want[i]), "%s: entry %d in [%d,%d) is %s, want %s", w.kind, first+i, first, last, world.Str(resp.Values[i]), world.Str(want[i]))
	}
	i := first
	for e := range w.log.Entries(ctx, int64(first), int64(last)) {
		x.Assert(i < last, "%s: streaming [%d,%d) gave too many", w.kind, first, last)
		x.Assert(world.SameLeaf(e, w.data[i]), "%s: streamed entry %d of [%d,%d) is %s, want %s", w.kind, i, first, last, world.Str(e), world.Str(w.data[i]))
		i++
	}
	x.Assert(i == last, "%s of %d: streaming [%d,%d) ended at %d", w.kind, w.n(), first, last, i)
	// auditing the same range
	head := &pb.LogTreeHashResponse{TreeSize: int64(last), RootHash: w.tree.Root(last)}
	var prev *pb.LogTreeHashResponse
	if first > 0 {
		prev = &pb.LogTreeHashResponse{TreeSize: int64(first), RootHash: w.tree.Root(first)}
	}
	j := first
	err = w.log.VerifyEntries(ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
		x.Assert(idx == int64(j) && j < last && world.SameLeaf(e, w.data[j]), "%s: audit of [%d,%d) saw entry %d %s, want %d", w.kind, first, last, idx, world.Str(e), j)
		j++
		return nil
	})
	x.Assert(err == nil && j == last, "%s of %d: auditing entries [%d,%d) of an honest log stopped at %d: %v", w.kind, w.n(), first, last, j, err)
	x.C.Transition(3)
	x.C.Trace(1)
}

func checkEntryRejects(x *mck.X, w *logWorld) {
	n := int64(w.n())
	bad := [][2]int64{{0, n + 1}, {n, n + 1}, {n, 0}, {n + 1, 0}, {n, n}, {-1, 1}, {-1, 0}, {0, -1}, {math.MinInt64, math.MaxInt64}, {math.MaxInt64, math.MaxInt64}, {math.MinInt64, 1}, {1 << 40, 0}}
	if n >= 2 {
		bad = append(bad, [2]int64{1, 1}, [2]int64{2, 1})
	}
	for _, b := range bad {
		r, err := w.log.Service.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: w.log.Log, First: b[0], Last: b[1]})
		x.Assert(err != nil, "%s of %d: entries [%d,%d) answered with %d", w.kind, n, b[0], b[1], len(r.GetValues()))
	}
	if n > 0 {
		for f := int64(0); f < n; f += 1 + n/5 {
			r, err := w.log.Service.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: w.log.Log, First: f, Last: 0})
			x.Assert(err == nil && int64(len(r.Values)) == n-f && world.SameLeaf(r.Values[0], w.data[f]), "%s of %d: entries [%d,latest): %v", w.kind, n, f, err)
		}
	}
	for _, i := range []int64{-1, n, n + 1} {
		e, err := w.log.Entry(ctx, i)
		x.Assert(err != nil, "%s of %d: entry %d answered %v", w.kind, n, i, e)
	}
	for i := int64(0); i < n; i++ {
		e, err := w.log.Entry(ctx, i)
		x.Assert(err == nil && world.SameLeaf(e, w.data[i]), "%s: entry %d is %v (%v), want %s", w.kind, i, e, err, world.Str(w.data[i]))
	}
}

// grow runs f after every append of a log that grows to n entries.
func grow(c *mck.C, n int, f func(x *mck.X, w *logWorld)) {
	c.ExploreSerial("growing user log", func(x *mck.X) {
		s := world.Instant()
		w := &logWorld{kind: "user log", log: world.Log(s, "l"), tree: &ref.Tree{}}
		f(x, w)
		for i := 0; i < n && !c.Expired(); i++ {
			w.add(x, world.Leaf(entryBytes(i), fmt.Sprint("extra ", i)))
			c.State("grow", i)
			f(x, w)
		}
	})
}

// finals runs f on finished logs of the three kinds for every size up to n.
func finals(c *mck.C, n, nmap int, f func(x *mck.X, w *logWorld, size int)) {
	var ws []*logWorld
	c.ExploreSerial("build", func(x *mck.X) {
		ws = nil
		s := world.Instant()
		ws = append(ws, buildUserLog(x, s, "user", n))
		_, ml, tl := mapLogs(x, s, "map", nmap)
		ws = append(ws, ml, tl)
	})
	if len(ws) < 3 {
		return
	}
	c.Explore("every size", func(x *mck.X) {
		w := ws[x.Choose(3, "log kind")]
		size := 1 + x.Choose(w.n(), "size")
		c.State(w.kind, size)
		x.Logf("%s, size %d of %d", w.kind, size, w.n())
		c.Sample(w.kind, "size %d of %d", size, w.n())
		f(x, w, size)
	})
}

func init() {
	mck.Register(mck.Check{ID: "L01", Run: func(c *mck.C) {
		grow(c, c.Pick(70, 300), func(x *mck.X, w *logWorld) { checkRoots(x, w) })
		finals(c, c.Pick(1100, 4200), c.Pick(140, 600), func(x *mck.X, w *logWorld, size int) {
			h, err := w.log.TreeHead(ctx, int64(size))
			x.Assert(err == nil && h.TreeSize == int64(size) && bytes.Equal(h.RootHash, w.tree.Root(size)), "%s: head at %d of %d is %v (%v), want root %x", w.kind, size, w.n(), h, err, w.tree.Root(size))
			if size%64 == 0 || size == w.n() {
				checkRoots(x, w)
			}
			c.Transition(1)
			c.Trace(1)
		})
		farRoots(c)
	}})
	mck.Register(mck.Check{ID: "L02", Run: func(c *mck.C) {
		grow(c, c.Pick(24, 64), func(x *mck.X, w *logWorld) {
			for n := 1; n <= w.n(); n++ {
				checkInclusion(x, w, n)
			}
		})
		finals(c, c.Pick(280, 1100), c.Pick(70, 280), checkInclusion)
		farInclusion(c)
	}})
	mck.Register(mck.Check{ID: "L03", Run: func(c *mck.C) {
		grow(c, c.Pick(24, 64), func(x *mck.X, w *logWorld) {
			for n := 1; n <= w.n(); n++ {
				checkConsistency(x, w, n)
			}
		})
		finals(c, c.Pick(280, 1100), c.Pick(70, 280), checkConsistency)
		farConsistency(c)
	}})
	mck.Register(mck.Check{ID: "L07", Run: func(c *mck.C) {
		grow(c, c.Pick(12, 24), func(x *mck.X, w *logWorld) {
			checkEntryRejects(x, w)
			for a := 0; a < w.n(); a++ {
				for b := a + 1; b <= w.n(); b++ {
					checkEntries(x, w, a, b)
				}
			}
		})
		n, nm := c.Pick(1030, 2600), c.Pick(520, 1040)
		marks := []int{0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 498, 499, 500, 501, 502, 511, 512, 513, 999, 1000, 1001, 1002, 1023, 1024, 1025, 1030, 1499, 1500, 1501, 1502, 2000, 2001, 2048, 2500, 2501, 2600}
		finals(c, n, nm, func(x *mck.X, w *logWorld, size int) {
			interesting := size == w.n()
			for _, m := range marks {
				if m == size {
					interesting = true
				}
			}
			if !interesting {
				// still check a few short ranges ending at every size
				for _, a := range []int{0, size - 1, size - 2} {
					if a >= 0 && (a > 0 || size <= 40) {
						checkEntries(x, w, a, size)
					}
				}
				return
			}
			for _, a := range marks {
				if a < size {
					checkEntries(x, w, a, size)
				}
			}
			if size == w.n() {
				checkEntryRejects(x, w)
			}
		})
		abandoned(c)
		farEntries(c)
	}})
	mck.Register(mck.Check{ID: "L06", Budget: 120 * time.Second, Run: checkDedup})
}

// checkDedup explores every sequence of additions over a small alphabet.
func checkDedup(c *mck.C) {
	inputs := []string{"", "a", "b", "\x00"}
	depth := c.Pick(6, 8)
	c.Explore("addition sequences", func(x *mck.X) {
		s := world.Instant()
		other := world.Log(s, "other")
		if x.Bool("other log holds the same entries") {
			for _, in := range inputs {
				other.Add(ctx, world.Leaf(in, "other"))
			}
		}
		w := &logWorld{kind: "user log", log: world.Log(s, "l"), tree: &ref.Tree{}}
		index := map[string]int{}
		n := depth
		for i := 0; i < n; i++ {
			in := inputs[x.Choose(len(inputs), "entry")]
			d := world.Leaf(in, fmt.Sprintf("{\"e\":%d}", i))
			if i%2 == 1 {
				d.Format = pb.DataFormat_JSON
			}
			x.Logf("add %q with extra %s", in, d.ExtraData)
			p, err := w.log.Add(ctx, d)
			x.Assert(err == nil, "add failed: %v", err)
			x.Assert(bytes.Equal(p.LeafHash(), ref.Leaf([]byte(in))) && bytes.Equal(p.LeafHash(), merkle.LeafHash([]byte(in))), "wrong leaf hash %x for %q", p.LeafHash(), in)
			if _, dup := index[in]; !dup {
				index[in] = w.n()
				w.tree.Add([]byte(in))
				w.data = append(w.data, d)
			}
			h, err := w.log.TreeHead(ctx, 0)
			x.Assert(err == nil && h.TreeSize == int64(w.n()) && bytes.Equal(h.RootHash, w.tree.Root(w.n())), "after adding %q: head %v (%v), want size %d root %x", in, h, err, w.n(), w.tree.Root(w.n()))
			h, err = p.Wait(ctx)
			x.Assert(err == nil && h.TreeSize == int64(w.n()), "promise of adding %q: %v %v", in, h, err)
			c.Transition(1)
			c.State(x.TraceString())
		}
		for _, d := range w.data {
			p, err := w.log.InclusionProof(ctx, 0, ref.Leaf(d.LeafInput))
			x.Assert(err == nil && p.LeafIndex == int64(index[string(d.LeafInput)]), "%q should be at index %d, proof says %v %v", d.LeafInput, index[string(d.LeafInput)], p, err)
		}
		checkRoots(x, w)
		checkEntryRejects(x, w)
		for b := 1; b <= w.n(); b++ {
			checkEntries(x, w, 0, b)
		}
		c.Sample("sequence", "%s", x.TraceString())
	})
	// duplicates of every earlier entry in a long log
	c.ExploreSerial("duplicates in a long log", func(x *mck.X) {
		s := world.Instant()
		n := c.Pick(140, 520)
		w := buildUserLog(x, s, "l", n)
		for i := 0; i < n; i++ {
			in := w.data[i].LeafInput
			p, err := w.log.Add(ctx, &pb.LeafData{LeafInput: in, ExtraData: []byte("different")})
			x.Assert(err == nil && bytes.Equal(p.LeafHash(), ref.Leaf(in)), "re-adding entry %d: %v", i, err)
			h, err := w.log.TreeHead(ctx, 0)
			x.Assert(err == nil && h.TreeSize == int64(n) && bytes.Equal(h.RootHash, w.tree.Root(n)), "re-adding entry %d of %d changed the head: %v %v", i, n, h, err)
			c.Transition(1)
		}
		checkRoots(x, w)
		checkEntries(x, w, 0, n)
	})
	farDuplicates(c)
}

// abandoned has the caller of a stream, or of an audit, stop at every place:
// what was done on its behalf must end too.
func abandoned(c *mck.C) {
	s := world.Instant()
	var w *logWorld
	n := c.Pick(1030, 2100)
	c.ExploreSerial("build", func(x *mck.X) { w = buildUserLog(x, s, "user", n) })
	if w == nil {
		return
	}
	head := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: w.tree.Root(n)}
	c.ExploreSerial("abandoned", func(x *mck.X) {
		stops := []int{0, 1, 2, 3, 499, 500, 501, 999, 1000, 1001, n - 1, n}
		how := x.Choose(3, "how")
		at := stops[x.Choose(len(stops), "at")]
		before := runtime.NumGoroutine()
		what := fmt.Sprintf("cancelled after %d of %d entries", at, n)
		switch how {
		case 0:
			cx, cancel := context.WithCancel(ctx)
			ch := w.log.Entries(cx, 0, int64(n))
			for i := 0; i < at; i++ {
				e, ok := <-ch
				x.Assert(ok && world.SameLeaf(e, w.data[i]), "streamed entry %d is %s", i, world.Str(e))
			}
			cancel()
		case 1, 2:
			if at == 0 {
				x.Prune()
			}
			what = fmt.Sprintf("an audit that failed at entry %d of %d", at, n)
			first := 0
			var prev *pb.LogTreeHashResponse
			if how == 2 {
				first = 1 + (at-1)/2
				if first >= at {
					x.Prune()
				}
				prev = &pb.LogTreeHashResponse{TreeSize: int64(first), RootHash: w.tree.Root(first)}
			}
			stop := errors.New("stop")
			i := first
			err := w.log.VerifyEntries(ctx, prev, head, func(_ context.Context, idx int64, e *pb.LeafData) error {
				x.Assert(i < at && idx == int64(i) && world.SameLeaf(e, w.data[i]), "audit from %d, entry %d: %d %s", first, i, idx, world.Str(e))
				i++
				if i == at {
					return stop
				}
				return nil
			})
			x.Assert(err == stop, "%s gives %v", what, err)
		}
		for t := 0; runtime.NumGoroutine() > before; t++ {
			if t > 5000 {
				x.Failf("%s: %d goroutines are left, there were %d", what, runtime.NumGoroutine(), before)
			}
			time.Sleep(time.Millisecond)
		}
		c.State("abandoned", how, at)
		c.Transition(1)
		c.Trace(1)
	})
}
