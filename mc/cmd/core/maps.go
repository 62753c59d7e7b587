package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// mutRec is a mutation that was acknowledged.
type mutRec struct {
	action   string
	key      []byte
	value    *pb.LeafData
	prev     []byte
	leafHash []byte
	at       time.Time
}

// mapRun is a map of the code under test with its reference history.
type mapRun struct {
	s    world.Service
	m    *verifiable.Map
	hist []*ref.MapState           // by size
	vals []map[string]*pb.LeafData // by size, by key; absent: no value
	muts []mutRec
	mlog ref.Tree
	// stamp, if not nil, is the timestamp that callers give with their mutations
	stamp func() string
}

func newMapRun(s world.Service, name string) *mapRun {
	return &mapRun{s: s, m: world.Map(s, name), hist: []*ref.MapState{ref.NewMap()}, vals: []map[string]*pb.LeafData{{}}}
}

func (r *mapRun) n() int { return len(r.muts) }

func (r *mapRun) cur() *ref.MapState { return r.hist[len(r.hist)-1] }

// do performs a mutation on both.
func (r *mapRun) do(x *mck.X, action string, key []byte, v *pb.LeafData, prev []byte) {
	var p verifiable.MapUpdatePromise
	var err error
	t0 := time.Now()
	var lh []byte
	if r.stamp != nil {
		var resp *pb.MapSetValueResponse
		resp, err = r.s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: r.m.Map, Mutation: &pb.MapMutation{Timestamp: r.stamp(), Action: action, Key: key, Value: v, PreviousLeafHash: prev}})
		lh = resp.GetLeafHash()
	} else {
		switch action {
		case "set":
			p, err = r.m.Set(ctx, key, v)
		case "delete":
			p, err = r.m.Delete(ctx, key)
		case "update":
			p, err = r.m.Update(ctx, key, v, prev)
		}
		if err == nil {
			lh = p.LeafHash()
		}
	}
	x.Assert(err == nil, "%s %q failed: %v", action, key, err)
	r.muts = append(r.muts, mutRec{action: action, key: key, value: v, prev: prev, leafHash: lh, at: t0})
	st := r.cur().Clone()
	vals := map[string]*pb.LeafData{}
	for k, v := range r.vals[len(r.vals)-1] {
		vals[k] = v
	}
	effective := true
	if action == "update" {
		effective = bytes.Equal(prev, st.LeafHash(key))
	}
	if effective {
		in := v.GetLeafInput()
		st.Set(key, in)
		if len(in) == 0 {
			delete(vals, string(key))
		} else if old, ok := vals[string(key)]; !ok || !bytes.Equal(old.LeafInput, in) {
			vals[string(key)] = v
		}
	}
	r.hist = append(r.hist, st)
	r.vals = append(r.vals, vals)
	if x.C != nil {
		x.C.Transition(1)
	}
}

const (
	ckValues = 1 << iota
	ckRoots
	ckProofs
	ckLogs
	ckRejects
	ckExtra // extra data and format too
)

// check compares everything selected at every size.
func (r *mapRun) check(x *mck.X, what int, keys [][]byte, sizes []int) {
	n := r.n()
	for _, k := range sizes {
		st := r.hist[k]
		if k == 0 {
			continue
		}
		root := st.Root()
		if what&(ckRoots|ckProofs) != 0 {
			h, err := r.m.TreeHead(ctx, int64(k))
			x.Assert(err == nil, "map head at %d of %d: %v", k, n, err)
			if what&ckRoots != 0 {
				x.Assert(h.GetMutationLog().GetTreeSize() == int64(k), "map head at %d of %d says size %d", k, n, h.GetMutationLog().GetTreeSize())
				x.Assert(bytes.Equal(h.RootHash, root), "map root at size %d of %d is %x, the sparse Merkle tree over its contents has %x", k, n, h.RootHash, root)
				if k == n {
					h, err = r.m.TreeHead(ctx, 0)
					x.Assert(err == nil && h.GetMutationLog().GetTreeSize() == int64(k) && bytes.Equal(h.RootHash, root), "latest map head of size %d: %v %v, want root %x", n, h, err, root)
				}
			}
		}
		head := &pb.MapTreeHashResponse{RootHash: root, MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(k), RootHash: []byte("x")}}
		if what&(ckValues|ckProofs) != 0 {
			for _, key := range keys {
				for how := 0; how < 2; how++ {
					if how == 1 && k != n {
						break
					}
					ask := int64(k)
					if how == 1 {
						ask = 0
					}
					g, err := r.m.Get(ctx, key, ask)
					x.Assert(err == nil, "get %q at %d of %d: %v", key, k, n, err)
					x.Assert(g.TreeSize == int64(k), "get %q at %d of %d (asked %d) answers for size %d", key, k, n, ask, g.TreeSize)
					if what&ckValues != 0 {
						want := r.vals[k][string(key)]
						x.Assert(bytes.Equal(g.GetValue().GetLeafInput(), want.GetLeafInput()), "value of %q at size %d of %d is %s, want %s", key, k, n, world.Str(g.Value), world.Str(want))
						if what&ckExtra != 0 {
							x.Assert(world.SameLeaf(g.GetValue(), want), "value of %q at size %d of %d is %s, want %s", key, k, n, world.Str(g.Value), world.Str(want))
						}
					}
					if what&ckProofs != 0 {
						sib := st.Siblings(key)
						x.Assert(len(g.AuditPath) == 256, "proof of %q at %d has %d elements", key, k, len(g.AuditPath))
						for i := range sib {
							got := g.AuditPath[i]
							if len(got) == 0 {
								got = ref.Default[i+1]
							}
							x.Assert(bytes.Equal(got, sib[i]), "proof of %q at size %d of %d: element %d is %x, want %x", key, k, n, i, got, sib[i])
						}
						err = verifiable.VerifyMapInclusionProof(g, key, head)
						x.Assert(err == nil, "correct proof of %q at size %d of %d is rejected: %v", key, k, n, err)
						ld, err := r.m.VerifiedGet(ctx, key, &verifiable.MapTreeState{MapTreeHead: head})
						x.Assert(err == nil && bytes.Equal(ld.GetLeafInput(), g.GetValue().GetLeafInput()), "VerifiedGet of %q at size %d of %d: %v %v", key, k, n, ld, err)
					}
				}
			}
		}
		x.C.State("map", fmt.Sprintf("%x", root))
	}
	if what&ckRejects != 0 {
		for _, b := range append([]int64{int64(n + 1), int64(n + 2)}, badSizes...) {
			h, err := r.m.TreeHead(ctx, b)
			x.Assert(err != nil, "map head at %d of %d answered %v", b, n, h)
			g, err := r.m.Get(ctx, keys[0], b)
			x.Assert(err != nil, "get at %d of %d answered %v", b, n, g.GetValue())
		}
	}
	if what&ckLogs != 0 {
		r.checkLogs(x)
	}
	x.C.Trace(1)
}

// checkLogs compares the mutation log and the tree head log.
func (r *mapRun) checkLogs(x *mck.X) {
	n := r.n()
	ml, tl := r.m.MutationLog(), r.m.TreeHeadLog()
	if n == 0 {
		for _, l := range []*verifiable.Log{ml, tl} {
			h, err := l.TreeHead(ctx, 0)
			x.Assert(err == nil && h.TreeSize == 0, "internal log of an empty map: %v %v", h, err)
		}
		return
	}
	t := &ref.Tree{}
	for i, mu := range r.muts {
		e, err := ml.Entry(ctx, int64(i))
		x.Assert(err == nil, "mutation log entry %d of %d: %v", i, n, err)
		x.Assert(bytes.Equal(ref.Leaf(e.LeafInput), mu.leafHash), "mutation log entry %d has leaf hash %x, acknowledged was %x", i, ref.Leaf(e.LeafInput), mu.leafHash)
		t.Add(e.LeafInput)
		x.Assert(verifiable.ValidateJSONLeafDataFromMutation(e) == nil, "mutation log entry %d (%s) does not validate", i, e.ExtraData)
		var got pb.MapMutation
		err = json.Unmarshal(e.ExtraData, &got)
		x.Assert(err == nil, "mutation log entry %d is not a mutation: %v %q", i, err, e.ExtraData)
		x.Assert(got.Action == mu.action && bytes.Equal(got.Key, mu.key) && world.SameLeaf(got.Value, mu.value) && (got.Value == nil) == (mu.value == nil) && bytes.Equal(got.PreviousLeafHash, mu.prev),
			"mutation log entry %d is %v, acknowledged was %s %q %s prev %x", i, &got, mu.action, mu.key, world.Str(mu.value), mu.prev)
		ts, err := time.Parse(time.RFC3339Nano, got.Timestamp)
		x.Assert(err == nil && !ts.Before(mu.at.Add(-time.Minute)) && !ts.After(mu.at.Add(time.Minute)), "mutation log entry %d is stamped %q at %v", i, got.Timestamp, mu.at)
		p, err := ml.InclusionProof(ctx, int64(n), mu.leafHash)
		x.Assert(err == nil && p.LeafIndex == int64(i), "mutation %d is at %v (%v)", i, p, err)
	}
	for _, l := range []*verifiable.Log{ml, tl} {
		h, err := l.TreeHead(ctx, 0)
		x.Assert(err == nil && h.TreeSize == int64(n), "internal log of a map with %d mutations: %v %v", n, h, err)
		_, err = l.Entry(ctx, int64(n))
		x.Assert(err != nil, "internal log of a map with %d mutations has an entry at %d", n, n)
	}
	tt := &ref.Tree{}
	for k := 1; k <= n; k++ {
		h, err := ml.TreeHead(ctx, int64(k))
		x.Assert(err == nil && h.TreeSize == int64(k) && bytes.Equal(h.RootHash, t.Root(k)), "mutation log head at %d of %d: %v %v", k, n, h, err)
		e, err := tl.Entry(ctx, int64(k-1))
		x.Assert(err == nil, "tree head log entry %d of %d: %v", k-1, n, err)
		x.Assert(verifiable.ValidateJSONLeafData(ctx, e) == nil, "tree head log entry %d does not validate: %s", k-1, e.ExtraData)
		var mh pb.MapTreeHashResponse
		err = json.Unmarshal(e.ExtraData, &mh)
		x.Assert(err == nil && bytes.Equal(mh.RootHash, r.hist[k].Root()) && mh.GetMutationLog().GetTreeSize() == int64(k) && bytes.Equal(mh.GetMutationLog().GetRootHash(), t.Root(k)),
			"tree head log entry %d is %s (%v), want map root %x and log root %x at size %d", k-1, e.ExtraData, err, r.hist[k].Root(), t.Root(k), k)
		tt.Add(e.LeafInput)
		h, err = tl.TreeHead(ctx, int64(k))
		x.Assert(err == nil && bytes.Equal(h.RootHash, tt.Root(k)), "tree head log head at %d of %d: %v %v", k, n, h, err)
		m, err := r.m.TreeHead(ctx, int64(k))
		x.Assert(err == nil && bytes.Equal(m.GetMutationLog().GetRootHash(), t.Root(k)), "map head at %d of %d: %v %v, mutation log root %x", k, n, m, err, t.Root(k))
	}
}

func upTo(n int) []int {
	rv := make([]int, n)
	for i := range rv {
		rv[i] = i + 1
	}
	return rv
}

// universe is a set of keys to mutate and more to read.
type universe struct {
	name   string
	mutate [][]byte
	read   [][]byte
}

func universes(c *mck.C) []universe {
	mk := func(name string, mutate [][]byte, read ...[]byte) universe {
		return universe{name, mutate, append(append([][]byte{}, mutate...), read...)}
	}
	l := func(cs ...int) [][]byte {
		rv := [][]byte{ref.Base}
		for _, c := range cs {
			rv = append(rv, ref.Ladder[c])
		}
		return rv
	}
	pr := func(cs ...int) [][]byte {
		var rv [][]byte
		for _, c := range cs {
			p := ref.Pairs[c]
			rv = append(rv, p[0], p[1])
		}
		return rv
	}
	u := []universe{
		mk("shared 0 and 1", l(0, 1), ref.Ladder[2], ref.Ladder[9], []byte("")),
		mk("shared 7 and 8", l(7, 8), ref.Ladder[6], ref.Ladder[9], ref.Ladder[0]),
		mk("shared 3 and 20", l(3, 20), ref.Ladder[4], ref.Ladder[21], ref.Ladder[19]),
		mk("shared 15 and 41", l(15, 41), ref.Ladder[16], ref.Ladder[20]),
		mk("two pairs of 9 and the empty key", append(pr(9), []byte("")), ref.Ladder[1]),
	}
	if !c.Quick() {
		u = append(u,
			mk("shared 1, 2 and 3", l(1, 2, 3), ref.Ladder[4]),
			mk("shared 16 and 17", l(16, 17), ref.Ladder[15], ref.Ladder[18]),
			mk("shared 46 and far", append(pr(46), ref.Base), ref.Ladder[1]),
			mk("pairs of 32 and 8", pr(32, 8)),
		)
	}
	return u
}

// mutation operations of the exploration
func mutationOp(x *mck.X, r *mapRun, keys [][]byte, full bool) {
	key := keys[x.Choose(len(keys), "key")]
	n := 4
	if full {
		n = 8
	}
	i := r.n()
	va := &pb.LeafData{LeafInput: []byte("value a"), ExtraData: []byte("{\"a\":1}"), Format: pb.DataFormat_JSON}
	vb := &pb.LeafData{LeafInput: []byte(fmt.Sprint("value b", i)), ExtraData: []byte(fmt.Sprint("extra b", i))}
	cur := r.cur().LeafHash(key)
	var err error
	_ = err
	switch x.Choose(n, "op") {
	case 0:
		x.Logf("set %q a", key)
		r.do(x, "set", key, va, nil)
	case 1:
		x.Logf("set %q b%d", key, i)
		r.do(x, "set", key, vb, nil)
	case 2:
		x.Logf("delete %q", key)
		r.do(x, "delete", key, nil, nil)
	case 3:
		x.Logf("update %q b%d from the current value", key, i)
		r.do(x, "update", key, vb, cur)
	case 4:
		x.Logf("update %q a from a wrong value", key)
		r.do(x, "update", key, va, ref.Leaf([]byte("something else")))
	case 5:
		x.Logf("set %q empty", key)
		r.do(x, "set", key, &pb.LeafData{}, nil)
	case 6:
		x.Logf("update %q a from absent", key)
		r.do(x, "update", key, va, ref.Default[256])
	case 7:
		x.Logf("update %q empty from the current value", key)
		r.do(x, "update", key, &pb.LeafData{ExtraData: []byte("gone")}, cur)
	}
}

// exploreMaps runs f after every sequence of mutations.
func exploreMaps(c *mck.C, depthFull, depthSmall int, f func(x *mck.X, r *mapRun, u universe, final bool)) {
	run := func(u universe, full bool, depth int) {
		name := fmt.Sprintf("sequences of %d over %s (all ops: %v)", depth, u.name, full)
		c.Explore(name, func(x *mck.X) {
			r := newMapRun(world.Instant(), "m")
			for i := 0; i < depth; i++ {
				mutationOp(x, r, u.mutate, full)
				f(x, r, u, i == depth-1)
			}
			c.Sample(u.name, "%s", x.TraceString())
		})
	}
	for _, u := range universes(c) {
		run(u, true, depthFull)
		run(u, false, depthSmall)
	}
}

// bigMap makes a long history over many keys, calling f at marks.
func bigMap(c *mck.C, n int, f func(x *mck.X, r *mapRun, keys [][]byte, i int)) {
	c.ExploreSerial("long history", func(x *mck.X) {
		r := newMapRun(world.Instant(), "big")
		var keys [][]byte
		for i := 0; i < n/3; i++ {
			keys = append(keys, []byte(fmt.Sprint("key ", i)))
		}
		for _, p := range ref.Pairs {
			keys = append(keys, p[0], p[1])
		}
		for i := 0; i < n && !c.Expired(); i++ {
			k := keys[(i*7)%len(keys)]
			if i%11 == 10 {
				k = keys[(i*3)%len(keys)]
			}
			switch i % 13 {
			case 5, 9:
				r.do(x, "delete", keys[((i-4)*7)%len(keys)], nil, nil)
			case 7:
				r.do(x, "update", k, world.Leaf(fmt.Sprint("u", i), "x"), r.cur().LeafHash(k))
			case 8:
				r.do(x, "update", k, world.Leaf(fmt.Sprint("w", i), "x"), []byte("wrong"))
			default:
				r.do(x, "set", k, world.Leaf(fmt.Sprint("v", i), "x"), nil)
			}
			f(x, r, keys, i)
		}
	})
}

func init() {
	mck.Register(mck.Check{ID: "M01", Run: func(c *mck.C) {
		exploreMaps(c, c.Pick(2, 3), c.Pick(3, 4), func(x *mck.X, r *mapRun, u universe, final bool) {
			if final {
				r.check(x, ckValues|ckExtra, u.read, upTo(r.n()))
			} else {
				r.check(x, ckValues|ckExtra, u.read, []int{r.n()})
			}
		})
		updateConditions(c)
		givenStamps(c, ckValues|ckExtra)
		// with more keys, and one operation of each kind on each of them
		bigMap(c, c.Pick(300, 1500), func(x *mck.X, r *mapRun, keys [][]byte, i int) {
			r.check(x, ckValues|ckExtra, [][]byte{keys[i%len(keys)], keys[(i*7)%len(keys)]}, []int{r.n(), 1 + i/2})
			if i%100 == 99 {
				r.check(x, ckValues|ckExtra, keys, []int{r.n(), r.n() / 2, 1})
			}
		})
		farMap(c, ckValues|ckExtra)
	}})
	mck.Register(mck.Check{ID: "M02", Run: func(c *mck.C) {
		exploreMaps(c, c.Pick(2, 3), c.Pick(3, 4), func(x *mck.X, r *mapRun, u universe, final bool) {
			if final {
				r.check(x, ckRoots, u.read, upTo(r.n()))
			} else {
				r.check(x, ckRoots, u.read, []int{r.n()})
			}
		})
		// order independence: every order of setting up to 5 keys, and extra keys set and deleted again
		for _, ks := range orderUniverses(c) {
			orders(c, ks)
		}
		bigMap(c, c.Pick(400, 2000), func(x *mck.X, r *mapRun, keys [][]byte, i int) {
			r.check(x, ckRoots, keys, []int{r.n(), 1 + i/2, 1})
		})
		farMap(c, ckRoots)
	}})
	mck.Register(mck.Check{ID: "M03", Run: func(c *mck.C) {
		exploreMaps(c, 2, c.Pick(3, 4), func(x *mck.X, r *mapRun, u universe, final bool) {
			if final {
				r.check(x, ckProofs|ckRejects, u.read, upTo(r.n()))
			} else {
				r.check(x, ckProofs, u.read[:2], []int{r.n()})
			}
		})
		// absent keys diverging at every depth from a single key, and from a deleted one
		c.Explore("absent keys at every depth", func(x *mck.X) {
			r := newMapRun(world.Instant(), "m")
			var depths []int
			for d := 0; d <= 41; d++ {
				if ref.Ladder[d] != nil {
					depths = append(depths, d)
				}
			}
			d := depths[x.Choose(len(depths), "depth")]
			r.do(x, "set", ref.Base, world.Leaf("base", ""), nil)
			if x.Bool("second key present") {
				r.do(x, "set", ref.Ladder[d], world.Leaf("other", ""), nil)
			}
			if x.Bool("base deleted") {
				r.do(x, "delete", ref.Base, nil, nil)
			}
			var keys [][]byte
			for _, e := range depths {
				keys = append(keys, ref.Ladder[e])
			}
			keys = append(keys, ref.Base)
			r.check(x, ckProofs|ckValues, keys, upTo(r.n()))
		})
		bigMap(c, c.Pick(200, 1000), func(x *mck.X, r *mapRun, keys [][]byte, i int) {
			ks := [][]byte{keys[(i*7)%len(keys)], []byte(fmt.Sprint("absent ", i))}
			r.check(x, ckProofs, ks, []int{r.n(), 1 + i/2})
			if i%100 == 99 {
				r.check(x, ckProofs, keys, []int{r.n()})
			}
		})
		farMap(c, ckProofs)
	}})
	mck.Register(mck.Check{ID: "M05", Run: func(c *mck.C) {
		exploreMaps(c, 2, c.Pick(3, 4), func(x *mck.X, r *mapRun, u universe, final bool) {
			if final || r.n() < 3 {
				r.check(x, ckLogs, u.read, nil)
			}
		})
		mutationShapes(c)
		givenStamps(c, ckLogs)
		valueEqualsMutation(c)
		bigMap(c, c.Pick(270, 1100), func(x *mck.X, r *mapRun, keys [][]byte, i int) {
			if i < 40 || i%64 < 2 {
				r.check(x, ckLogs, keys, nil)
			}
		})
		farMap(c, ckLogs)
	}})
	mck.Register(mck.Check{ID: "M06", Run: func(c *mck.C) {
		verifiedStates(c)
		statesFromReplicas(c)
	}, Rule: "every pair of previous and requested sizes of a map while it grows, and every choice of a replica, up to date or behind, to answer each request"})
}

// updateConditions tries every kind of stated previous leaf hash on a key in
// every kind of state, beside other keys.
func updateConditions(c *mck.C) {
	before := []string{"absent", "set", "set empty", "set and deleted", "set twice", "deleted", "updated", "value that is a leaf hash"}
	prevs := []string{"nil", "empty", "current", "default", "leaf hash of nothing", "prefix", "current and more", "an older value's", "another key's", "the new value's", "the value itself", "the map root", "zeros", "extra data's", "current with a bit changed"}
	vals := []*pb.LeafData{world.Leaf("new", "n"), world.Leaf("first", "f"), {}, {ExtraData: []byte("extra only")}, {LeafInput: []byte("new"), Format: pb.DataFormat_JSON}}
	c.Explore("update conditions", func(x *mck.X) {
		r := newMapRun(world.Instant(), "m")
		key, other := ref.Base, ref.Ladder[[]int{0, 9, 20}[x.Choose(3, "other key at")]]
		r.do(x, "set", other, world.Leaf("other", "o"), nil)
		b := x.Choose(len(before), "before")
		x.Logf("before: %s", before[b])
		switch before[b] {
		case "set":
			r.do(x, "set", key, world.Leaf("first", "f"), nil)
		case "set empty":
			r.do(x, "set", key, &pb.LeafData{}, nil)
		case "set and deleted":
			r.do(x, "set", key, world.Leaf("first", "f"), nil)
			r.do(x, "delete", key, nil, nil)
		case "set twice":
			r.do(x, "set", key, world.Leaf("first", "f"), nil)
			r.do(x, "set", key, world.Leaf("second", "s"), nil)
		case "deleted":
			r.do(x, "delete", key, nil, nil)
		case "updated":
			r.do(x, "update", key, world.Leaf("first", "f"), r.cur().LeafHash(key))
		case "value that is a leaf hash":
			r.do(x, "set", key, &pb.LeafData{LeafInput: ref.Leaf(nil)}, nil)
		}
		p := x.Choose(len(prevs), "prev")
		v := vals[x.Choose(len(vals), "value")]
		cur := r.cur().LeafHash(key)
		var prev []byte
		switch prevs[p] {
		case "empty":
			prev = []byte{}
		case "current":
			prev = cur
		case "default":
			prev = ref.Default[256]
		case "leaf hash of nothing":
			prev = ref.Leaf(nil)
		case "prefix":
			prev = cur[:31]
		case "current and more":
			prev = append(append([]byte{}, cur...), 0)
		case "an older value's":
			prev = ref.Leaf([]byte("first"))
		case "another key's":
			prev = r.cur().LeafHash(other)
		case "the new value's":
			prev = ref.Leaf(v.LeafInput)
		case "the value itself":
			prev = append(prev, r.vals[r.n()][string(key)].GetLeafInput()...)
		case "the map root":
			prev = r.cur().Root()
		case "zeros":
			prev = make([]byte, 32)
		case "extra data's":
			prev = ref.Leaf([]byte("f"))
		case "current with a bit changed":
			prev = append([]byte{}, cur...)
			prev[31] ^= 1
		}
		x.Logf("update to %s if it is %s", world.Str(v), prevs[p])
		r.do(x, "update", key, v, prev)
		r.check(x, ckValues|ckExtra, [][]byte{key, other}, upTo(r.n()))
		r.do(x, "update", key, world.Leaf("last", "l"), r.cur().LeafHash(key))
		r.check(x, ckValues|ckExtra, [][]byte{key, other}, upTo(r.n()))
		x.C.Sample("update conditions", "%s", x.TraceString())
	})
}

// givenStamps has callers who fill in the timestamp of their mutations, which
// is the server's to set: it is what tells apart mutations that are otherwise
// equal, each of which must take effect.
func givenStamps(c *mck.C, what int) {
	stamps := []string{"", "x", "2001-02-03T04:05:06Z", "now", "in an hour"}
	c.Explore("timestamps given by callers", func(x *mck.X) {
		r := newMapRun(world.Instant(), "m")
		st := stamps[x.Choose(len(stamps), "timestamp")]
		switch st {
		case "now":
			st = time.Now().Format(time.RFC3339Nano)
		case "in an hour":
			st = time.Now().Add(time.Hour).Format(time.RFC3339Nano)
		}
		r.stamp = func() string { return st }
		x.Logf("timestamps %q", st)
		key, v := []byte("k"), []*pb.LeafData{world.Leaf("1", "a"), world.Leaf("2", "b")}
		for i := 0; i < c.Pick(4, 5); i++ {
			switch k := x.Choose(4, "mutation"); k {
			case 0, 1:
				r.do(x, "set", key, v[k], nil)
			case 2:
				r.do(x, "delete", key, nil, nil)
			case 3:
				r.do(x, "update", key, v[0], ref.Leaf([]byte("2")))
			}
		}
		r.check(x, what, [][]byte{key, []byte("other")}, upTo(r.n()))
		x.C.Sample("timestamps", "%s", x.TraceString())
	})
}

func orderUniverses(c *mck.C) [][][]byte {
	l := func(cs ...int) [][]byte {
		rv := [][]byte{ref.Base}
		for _, c := range cs {
			rv = append(rv, ref.Ladder[c])
		}
		return rv
	}
	u := [][][]byte{l(0, 1, 9, 20), l(7, 8, 16, 41)}
	if !c.Quick() {
		u = append(u, l(0, 3, 7, 8, 15), l(1, 2, 10, 17, 21))
	}
	return u
}

func orders(c *mck.C, keys [][]byte) {
	c.Explore(fmt.Sprintf("orders of %d keys from %q", len(keys), keys[1]), func(x *mck.X) {
		r := newMapRun(world.Instant(), "m")
		left := append([][]byte{}, keys...)
		for len(left) > 0 {
			i := x.Choose(len(left), "next")
			k := left[i]
			left = append(left[:i:i], left[i+1:]...)
			r.do(x, "set", k, world.Leaf("v "+string(k), ""), nil)
		}
		n := len(keys)
		full := r.cur().Root()
		// remove one or two, and put them back
		a := x.Choose(n, "remove")
		b := x.Choose(n, "remove too")
		r.do(x, "delete", keys[a], nil, nil)
		r.do(x, "delete", keys[b], nil, nil)
		r.do(x, "set", keys[b], world.Leaf("v "+string(keys[b]), ""), nil)
		r.do(x, "set", keys[a], world.Leaf("v "+string(keys[a]), ""), nil)
		r.check(x, ckRoots, keys, upTo(r.n()))
		h, err := r.m.TreeHead(ctx, 0)
		x.Assert(err == nil && bytes.Equal(h.RootHash, full), "the same contents after a detour have root %x, want %x (%v)", h.GetRootHash(), full, err)
	})
}

// mutationShapes logs mutations with every combination of optional parts.
func mutationShapes(c *mck.C) {
	keys := [][]byte{{}, []byte("k"), {0, 255, 10}, bytes.Repeat([]byte("long"), 300)}
	vals := []*pb.LeafData{{}, world.Leaf("in", ""), world.Leaf("", "extra"), {LeafInput: []byte{0, 1, 255}, ExtraData: []byte("{\"j\":[1,null]}"), Format: pb.DataFormat_JSON}, {LeafInput: bytes.Repeat([]byte{7}, 5000), ExtraData: []byte("<>&\u2028")}}
	prevs := [][]byte{nil, {}, {1}, ref.Default[256], bytes.Repeat([]byte{9}, 100)}
	c.Explore("mutation shapes", func(x *mck.X) {
		r := newMapRun(world.Instant(), "m")
		for i := 0; i < 2; i++ {
			k := keys[x.Choose(len(keys), "key")]
			switch x.Choose(3, "action") {
			case 0:
				r.do(x, "set", k, vals[x.Choose(len(vals), "value")], nil)
			case 1:
				r.do(x, "delete", k, nil, nil)
			case 2:
				r.do(x, "update", k, vals[x.Choose(len(vals), "value")], prevs[x.Choose(len(prevs), "prev")])
			}
			if i == 0 && x.Bool("stop at one") {
				break
			}
		}
		r.check(x, ckLogs|ckRoots, keys, upTo(r.n()))
	})
}

// valueEqualsMutation stores values whose leaf input is that of an earlier
// mutation log entry.
func valueEqualsMutation(c *mck.C) {
	c.Explore("values equal to mutation log entries", func(x *mck.X) {
		r := newMapRun(world.Instant(), "m")
		n := 1 + x.Choose(3, "mutations before")
		for i := 0; i < n; i++ {
			if i == 1 {
				r.do(x, "delete", ref.Base, nil, nil)
				continue
			}
			r.do(x, "set", ref.Base, world.Leaf(fmt.Sprint("v", i), "e"), nil)
		}
		which := x.Choose(n, "entry to imitate")
		e, err := r.m.MutationLog().Entry(ctx, int64(which))
		x.Assert(err == nil, "entry %d: %v", which, err)
		v := &pb.LeafData{LeafInput: e.LeafInput, ExtraData: []byte("other data")}
		k := [][]byte{ref.Base, ref.Ladder[9]}[x.Choose(2, "key")]
		if x.Bool("by update") {
			r.do(x, "update", k, v, r.cur().LeafHash(k))
		} else {
			r.do(x, "set", k, v, nil)
		}
		r.check(x, ckLogs|ckRoots|ckValues, [][]byte{ref.Base, ref.Ladder[9]}, upTo(r.n()))
		r.do(x, "set", ref.Ladder[3], world.Leaf("w", "e"), nil)
		r.check(x, ckLogs|ckRoots|ckValues, [][]byte{ref.Base, ref.Ladder[9]}, upTo(r.n()))
	})
}

// verifiedStates obtains verified states for every pair of sizes.
func verifiedStates(c *mck.C) {
	n := c.Pick(24, 70)
	c.ExploreSerial("every pair of sizes while growing", func(x *mck.X) {
		s := world.Instant()
		r := newMapRun(s, "m")
		st, err := r.m.VerifiedMapState(ctx, nil, 0)
		x.Assert(st == nil && err == nil, "verified state of an empty map: %v %v", st, err)
		st, err = r.m.VerifiedLatestMapState(ctx, nil)
		x.Assert(st == nil && err == nil, "latest verified state of an empty map: %v %v", st, err)
		for _, b := range append([]int64{1}, badSizes...) {
			st, err := r.m.VerifiedMapState(ctx, nil, b)
			x.Assert(err != nil, "verified state of an empty map at %d: %v", b, st)
		}
		for i := 0; i < n && !c.Expired(); i++ {
			k := []byte(fmt.Sprint("k", i%5))
			switch i % 4 {
			case 3:
				r.do(x, "delete", k, nil, nil)
			case 2:
				r.do(x, "set", []byte("k0"), world.Leaf("same", ""), nil)
			default:
				r.do(x, "set", k, world.Leaf(fmt.Sprint(i), ""), nil)
			}
			r.pairs(x)
		}
	})
	// states obtained earlier stay usable after the map has grown
	c.ExploreSerial("old states after growth", func(x *mck.X) {
		s := world.Instant()
		r := newMapRun(s, "m")
		var states []*verifiable.MapTreeState
		for i := 0; i < c.Pick(40, 130) && !c.Expired(); i++ {
			r.do(x, "set", []byte(fmt.Sprint("k", i%7)), world.Leaf(fmt.Sprint(i/2), ""), nil)
			st, err := r.m.VerifiedLatestMapState(ctx, nil)
			x.Assert(err == nil && st != nil, "latest verified state at %d: %v", r.n(), err)
			r.sound(x, st, r.n(), "latest from nothing")
			states = append(states, st)
			for j, o := range states {
				st, err := r.m.VerifiedLatestMapState(ctx, o)
				x.Assert(err == nil && st != nil, "latest verified state from that of size %d at %d: %v", j+1, r.n(), err)
				r.sound(x, st, r.n(), "latest from old")
				for _, k := range []int{1, j + 1, (j + r.n()) / 2, r.n()} {
					if k == 0 {
						continue
					}
					st, err := r.m.VerifiedMapState(ctx, o, int64(k))
					x.Assert(err == nil && st != nil, "verified state %d from that of size %d at %d: %v", k, j+1, r.n(), err)
					r.sound(x, st, k, "old")
					c.Transition(1)
				}
			}
		}
	})
}

func (r *mapRun) pairs(x *mck.X) {
	n := r.n()
	states := make([]*verifiable.MapTreeState, n+1)
	for k := 1; k <= n; k++ {
		st, err := r.m.VerifiedMapState(ctx, nil, int64(k))
		x.Assert(err == nil && st != nil, "verified state at %d of %d from nothing: %v", k, n, err)
		r.sound(x, st, k, "from nothing")
		states[k] = st
	}
	for p := 1; p <= n; p++ {
		for k := 0; k <= n; k++ {
			st, err := r.m.VerifiedMapState(ctx, states[p], int64(k))
			x.Assert(err == nil && st != nil, "verified state at %d of %d from that of %d: %v", k, n, p, err)
			want := k
			if k == 0 {
				want = n
			}
			r.sound(x, st, want, fmt.Sprint("from ", p))
			x.C.State("pair", n, p, k)
			x.C.Transition(1)
		}
		for _, b := range []int64{int64(n + 1), -1, math.MaxInt64} {
			st, err := r.m.VerifiedMapState(ctx, states[p], b)
			x.Assert(err != nil, "verified state at %d of %d: %v", b, n, st)
		}
	}
	x.C.Trace(1)
}

// sound checks a state against the reference.
func (r *mapRun) sound(x *mck.X, st *verifiable.MapTreeState, k int, how string) {
	n := r.n()
	x.Assert(st.TreeSize() == int64(k), "verified state at %d of %d %s has size %d", k, n, how, st.TreeSize())
	x.Assert(bytes.Equal(st.MapTreeHead.RootHash, r.hist[k].Root()), "verified state at %d of %d %s has the wrong root", k, n, how)
	lh, err := r.m.MutationLog().TreeHead(ctx, int64(k))
	x.Assert(err == nil && bytes.Equal(lh.RootHash, st.MapTreeHead.MutationLog.RootHash), "verified state at %d of %d %s has the wrong mutation log head", k, n, how)
	th := st.TreeHeadLogTreeHead
	x.Assert(th != nil && th.TreeSize >= int64(k) && th.TreeSize <= int64(n), "verified state at %d of %d %s has tree head log head %v", k, n, how, th)
	want, err := r.m.TreeHeadLog().TreeHead(ctx, th.TreeSize)
	x.Assert(err == nil && bytes.Equal(want.RootHash, th.RootHash), "verified state at %d of %d %s has a tree head log head that is not the log's", k, n, how)
	e, err := r.m.TreeHeadLog().Entry(ctx, int64(k-1))
	x.Assert(err == nil, "tree head log entry %d: %v", k-1, err)
	err = r.m.TreeHeadLog().VerifyInclusion(ctx, th, merkle.LeafHash(e.LeafInput))
	x.Assert(err == nil, "verified state at %d of %d %s: its head is not in the tree head log: %v", k, n, how, err)
}
