package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// Logs and maps of more entries than two bytes can count, looked at around
// every power of two.

// farMarks are the sizes looked at in an object of n.
func farMarks(n int) []int {
	var rv []int
	for k := 256; k <= n; k *= 2 {
		for _, d := range []int{-1, 0, 1, 2} {
			if k+d <= n {
				rv = append(rv, k+d)
			}
		}
	}
	for _, m := range []int{10000, 32000, 50001, 65000, 99999, 100000, 100001, n - 1, n} {
		if m <= n {
			rv = append(rv, m)
		}
	}
	return rv
}

func farService() world.Service {
	db := &memory.TransientStorage{}
	return (&verifiable.Service{AccessPolicy: policy.Open, Mutator: &instant.Mutator{Writer: db}, Reader: db}).MustCreate()
}

// farLogs explores f for every kind of log and mark.
func farLogs(c *mck.C, atMark func(x *mck.X, w *logWorld), f func(x *mck.X, w *logWorld, size int, marks []int)) {
	n, nmap := c.Pick(264000, 1100000), c.Pick(66000, 132000)
	if c.Expired() {
		return
	}
	var ws []*logWorld
	c.ExploreSerial("build a log longer than 65536", func(x *mck.X) {
		ws = nil
		s := farService()
		isMark := map[int]bool{}
		for _, m := range farMarks(n) {
			isMark[m] = true
		}
		w := &logWorld{kind: "long user log", log: world.Log(s, "long"), tree: &ref.Tree{}}
		for i := 0; i < n; i++ {
			w.add(x, world.Leaf(fmt.Sprint("entry ", i), fmt.Sprint("extra ", i)))
			if atMark != nil && isMark[w.n()] {
				atMark(x, w)
			}
		}
		ws = append(ws, w)
		m := world.Map(s, "long")
		for i := 0; i < nmap; i++ {
			_, err := m.Delete(ctx, []byte(fmt.Sprint("nothing ", i)))
			x.Assert(err == nil, "map mutation %d failed: %v", i, err)
		}
		for _, l := range []*verifiable.Log{m.MutationLog(), m.TreeHeadLog()} {
			w := &logWorld{kind: "long internal log", log: l, tree: &ref.Tree{}}
			for e := range l.Entries(ctx, 0, int64(nmap)) {
				w.tree.Add(e.GetLeafInput())
				w.data = append(w.data, e)
			}
			x.Assert(w.n() == nmap, "an internal log of %d entries gave %d", nmap, w.n())
			ws = append(ws, w)
		}
	})
	if len(ws) < 3 {
		return
	}
	c.Explore("sizes around powers of two", func(x *mck.X) {
		w := ws[x.Choose(3, "log kind")]
		marks := farMarks(w.n())
		size := marks[x.Choose(len(marks), "size")]
		c.State("far", w.kind, size)
		x.Logf("%s, size %d of %d", w.kind, size, w.n())
		f(x, w, size, marks)
		c.Trace(1)
	})
}

func farRoots(c *mck.C) {
	farLogs(c, func(x *mck.X, w *logWorld) {
		h, err := w.log.TreeHead(ctx, 0)
		x.Assert(err == nil && h.TreeSize == int64(w.n()) && bytes.Equal(h.RootHash, w.tree.Root(w.n())), "%s: latest head of %d entries is %v (%v), want root %x", w.kind, w.n(), h, err, w.tree.Root(w.n()))
	}, func(x *mck.X, w *logWorld, size int, _ []int) {
		h, err := w.log.TreeHead(ctx, int64(size))
		x.Assert(err == nil && h.TreeSize == int64(size) && bytes.Equal(h.RootHash, w.tree.Root(size)), "%s: head at %d of %d is %v (%v), want root %x", w.kind, size, w.n(), h, err, w.tree.Root(size))
		c.Transition(1)
	})
}

func farInclusion(c *mck.C) {
	farLogs(c, nil, func(x *mck.X, w *logWorld, size int, marks []int) {
		head := &pb.LogTreeHashResponse{TreeSize: int64(size), RootHash: w.tree.Root(size)}
		for _, m := range append([]int{0, 1, 255}, marks...) {
			if m >= size {
				continue
			}
			want := w.tree.Path(m, 0, size)
			p, err := w.log.InclusionProof(ctx, int64(size), w.tree.L[m])
			x.Assert(err == nil && p.LeafIndex == int64(m) && p.TreeSize == int64(size) && ref.Eq(p.AuditPath, want), "%s: inclusion proof of entry %d in size %d is %v (%v), RFC 6962 says %x", w.kind, m, size, p, err, want)
			x.Assert(verifiable.VerifyLogInclusionProof(p, w.tree.L[m], head) == nil, "%s: correct inclusion proof of entry %d in size %d rejected", w.kind, m, size)
			p, err = w.log.InclusionProofByIndex(ctx, int64(size), int64(m))
			x.Assert(err == nil && p.LeafIndex == int64(m) && p.TreeSize == int64(size) && ref.Eq(p.AuditPath, want), "%s: inclusion proof of index %d in size %d is %v (%v), RFC 6962 says %x", w.kind, m, size, p, err, want)
			c.Transition(2)
		}
	})
}

func farConsistency(c *mck.C) {
	farLogs(c, nil, func(x *mck.X, w *logWorld, size int, marks []int) {
		b := &pb.LogTreeHashResponse{TreeSize: int64(size), RootHash: w.tree.Root(size)}
		for _, m := range append([]int{1, 2, 255}, marks...) {
			if m >= size {
				continue
			}
			want := w.tree.Proof(m, size)
			p, err := w.log.ConsistencyProof(ctx, int64(m), int64(size))
			x.Assert(err == nil && p.FromSize == int64(m) && p.TreeSize == int64(size) && ref.Eq(p.AuditPath, want), "%s: consistency proof %d-%d is %v (%v), RFC 6962 says %x", w.kind, m, size, p, err, want)
			a := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: w.tree.Root(m)}
			x.Assert(w.log.VerifyConsistency(ctx, a, b) == nil, "%s: VerifyConsistency(%d,%d) of an honest log fails", w.kind, m, size)
			c.Transition(2)
		}
	})
}

func farEntries(c *mck.C) {
	farLogs(c, nil, func(x *mck.X, w *logWorld, size int, marks []int) {
		for _, d := range []int{1, 2, 5, 501, 1001} {
			if d <= size {
				checkEntries(x, w, size-d, size)
			}
		}
		if size == w.n() {
			checkEntries(x, w, 0, size)
		}
	})
}

func farDuplicates(c *mck.C) {
	farLogs(c, func(x *mck.X, w *logWorld) {
		n := w.n()
		for _, m := range append([]int{1, 2, 256}, farMarks(n)...) {
			if m > n {
				continue
			}
			in := w.data[m-1].LeafInput
			p, err := w.log.Add(ctx, &pb.LeafData{LeafInput: in, ExtraData: []byte("different")})
			x.Assert(err == nil && bytes.Equal(p.LeafHash(), ref.Leaf(in)), "re-adding entry %d of %d: %v", m-1, n, err)
			h, err := w.log.TreeHead(ctx, 0)
			x.Assert(err == nil && h.TreeSize == int64(n) && bytes.Equal(h.RootHash, w.tree.Root(n)), "re-adding entry %d of %d changed the head: %v %v", m-1, n, h, err)
			c.Transition(1)
		}
	}, func(x *mck.X, w *logWorld, size int, _ []int) {
		e, err := w.log.Entry(ctx, int64(size-1))
		x.Assert(err == nil && world.SameLeaf(e, w.data[size-1]), "%s: entry %d is %v (%v), want %s", w.kind, size-1, e, err, world.Str(w.data[size-1]))
	})
}

// farMap is a map with more mutations than two bytes can count. Most of them
// have no effect, but those around powers of two do.
func farMap(c *mck.C, what int) {
	n := c.Pick(66000, 132000)
	c.ExploreSerial("more than 65536 mutations", func(x *mck.X) {
		r := newMapRun(farService(), "long")
		isMark := map[int]bool{}
		marks := farMarks(n)
		for _, m := range marks {
			isMark[m] = true
		}
		keys := [][]byte{[]byte("a"), []byte("b"), ref.Pairs[len(ref.Pairs)-1][0], ref.Pairs[len(ref.Pairs)-1][1], []byte("c")}
		for i := 0; i < n && !c.Expired(); i++ {
			k := keys[(i+i/256)%len(keys)]
			switch {
			case !isMark[i] && !isMark[i+1]:
				r.do(x, "delete", []byte(fmt.Sprint("nothing ", i)), nil, nil)
			case i%2 == 0:
				k = []byte(fmt.Sprint("new ", i))
				r.do(x, "set", k, world.Leaf(fmt.Sprint("v", i), "x"), nil)
				keys = append(keys, k)
			case i%7 == 6:
				r.do(x, "delete", k, nil, nil)
			case i%7 == 3:
				r.do(x, "update", k, world.Leaf(fmt.Sprint("u", i), "x"), r.cur().LeafHash(k))
			default:
				r.do(x, "set", k, world.Leaf(fmt.Sprint("v", i), "x"), nil)
			}
			if isMark[r.n()] {
				r.check(x, what&^(ckLogs|ckRejects), keys, []int{r.n()})
			}
		}
		if c.Expired() {
			return
		}
		r.check(x, what&^ckLogs, keys, marks)
		if what&ckLogs != 0 {
			r.farLogsOfMap(x, marks)
		}
		c.State("far map", n)
	})
}

// farLogsOfMap compares the mutation log and the tree head log.
func (r *mapRun) farLogsOfMap(x *mck.X, marks []int) {
	n := r.n()
	t, tt := &ref.Tree{}, &ref.Tree{}
	i := 0
	for e := range r.m.MutationLog().Entries(ctx, 0, int64(n)) {
		x.Assert(i < n && bytes.Equal(ref.Leaf(e.LeafInput), r.muts[i].leafHash), "mutation log entry %d has leaf hash %x", i, ref.Leaf(e.LeafInput))
		var got pb.MapMutation
		err := json.Unmarshal(e.ExtraData, &got)
		mu := r.muts[i]
		x.Assert(err == nil && got.Action == mu.action && bytes.Equal(got.Key, mu.key) && world.SameLeaf(got.Value, mu.value) && bytes.Equal(got.PreviousLeafHash, mu.prev),
			"mutation log entry %d is %s, acknowledged was %s %q %s prev %x", i, e.ExtraData, mu.action, mu.key, world.Str(mu.value), mu.prev)
		t.Add(e.LeafInput)
		i++
	}
	x.Assert(i == n, "the mutation log of %d mutations gave %d entries", n, i)
	for e := range r.m.TreeHeadLog().Entries(ctx, 0, int64(n)) {
		tt.Add(e.LeafInput)
	}
	x.Assert(len(tt.L) == n, "the tree head log of %d mutations gave %d entries", n, len(tt.L))
	for _, k := range marks {
		h, err := r.m.MutationLog().TreeHead(ctx, int64(k))
		x.Assert(err == nil && h.TreeSize == int64(k) && bytes.Equal(h.RootHash, t.Root(k)), "mutation log head at %d of %d: %v %v", k, n, h, err)
		e, err := r.m.TreeHeadLog().Entry(ctx, int64(k-1))
		var mh pb.MapTreeHashResponse
		x.Assert(err == nil && json.Unmarshal(e.ExtraData, &mh) == nil && bytes.Equal(mh.RootHash, r.hist[k].Root()) && mh.GetMutationLog().GetTreeSize() == int64(k) && bytes.Equal(mh.GetMutationLog().GetRootHash(), t.Root(k)),
			"tree head log entry %d is %v (%v), want map root %x and log root %x at size %d", k-1, e, err, r.hist[k].Root(), t.Root(k), k)
		h, err = r.m.TreeHeadLog().TreeHead(ctx, int64(k))
		x.Assert(err == nil && bytes.Equal(h.RootHash, tt.Root(k)), "tree head log head at %d of %d: %v %v", k, n, h, err)
		m, err := r.m.TreeHead(ctx, int64(k))
		x.Assert(err == nil && bytes.Equal(m.GetMutationLog().GetRootHash(), t.Root(k)), "map head at %d of %d: %v %v, mutation log root %x", k, n, m, err, t.Root(k))
		x.C.Transition(4)
	}
	x.C.Trace(1)
}
