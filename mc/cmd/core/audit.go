package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"

	"verifmc/liar"
	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

const (
	tMut  = pb.LogType_STRUCT_TYPE_MUTATION_LOG
	tHead = pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
	tLog  = pb.LogType_STRUCT_TYPE_LOG
)

func init() {
	mck.Register(mck.Check{ID: "A01", Run: runA01, Budget: 120 * time.Second,
		Rule: "every mutation sequence to the stated depth over universes of keys with chosen shared prefixes; after each, audits from nothing and from every earlier state to every state, with every combination of callbacks, with a callback stopping the audit at every position, and with the map growing during the audit; every choice of a replica, up to date or behind, to answer each request of an audit; histories longer than the batches in which entries are fetched"})
	mck.Register(mck.Check{ID: "A02", Run: runA02, Budget: 120 * time.Second,
		Rule:        "committed lies: every single deviation (and pairs) of the entries of the mutation log and the tree head log, with consistent Merkle trees over the deviating entries, audited from nothing and from every earlier size; response lies: an honest history and a forked one, with every single deviation (pairs in the thorough tier) of every response of the audit",
		Assumptions: []string{"SHA-256 is collision free", "extra data of values is not authenticated and is left to the leaf data callback"}})
}

type auditCall struct {
	idx   int64
	key   []byte
	value *pb.LeafData
}

// effective are the mutations that change the root, and all values.
func (r *mapRun) effective(upto int) (calls []auditCall, values []*pb.LeafData) {
	for i := 0; i < upto; i++ {
		if !bytes.Equal(r.hist[i].Root(), r.hist[i+1].Root()) {
			calls = append(calls, auditCall{int64(i), r.muts[i].key, r.muts[i].value})
		}
		if r.muts[i].value != nil {
			values = append(values, r.muts[i].value)
		}
	}
	return
}

func sameCalls(a, b []auditCall) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].idx != b[i].idx || !bytes.Equal(a[i].key, b[i].key) || !world.SameLeaf(a[i].value, b[i].value) {
			return false
		}
	}
	return true
}

func strCalls(a []auditCall) string {
	s := ""
	for _, c := range a {
		s += fmt.Sprintf("[%d %q %s]", c.idx, c.key, world.Str(c.value))
	}
	return s
}

// audit audits between two states and compares the callbacks.
func (r *mapRun) audit(x *mck.X, prev, head *verifiable.MapTreeState, p, h int, useLeaf, useAudit bool) {
	n := r.n()
	var calls []auditCall
	var values []*pb.LeafData
	var lf verifiable.LeafDataAuditFunction
	var af verifiable.MapAuditFunction
	if useLeaf {
		lf = func(_ context.Context, d *pb.LeafData) error {
			values = append(values, d)
			return nil
		}
	}
	if useAudit {
		af = func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
			calls = append(calls, auditCall{idx, append([]byte{}, key...), v})
			return nil
		}
	}
	err := r.m.VerifyMap(ctx, prev, head, lf, af)
	x.Assert(err == nil, "audit of an honest map of %d mutations from %d to %d: %v", n, p, h, err)
	var wc []auditCall
	var wv []*pb.LeafData
	if p < h {
		wc, wv = r.effective(n)
	}
	if useAudit {
		x.Assert(sameCalls(calls, wc), "audit of %d mutations from %d to %d reported %s, effective are %s", n, p, h, strCalls(calls), strCalls(wc))
	}
	if useLeaf {
		ok := len(values) == len(wv)
		for i := 0; ok && i < len(wv); i++ {
			ok = world.SameLeaf(values[i], wv[i])
		}
		x.Assert(ok, "audit of %d mutations from %d to %d checked values %v, want %v", n, p, h, values, wv)
	}
	x.C.Transition(1)
	x.C.State("audit", p, h, fmt.Sprintf("%x", r.cur().Root()))
}

func runA01(c *mck.C) {
	stop := errors.New("stop here")
	exploreStates := func(depthFull, depthSmall int, f func(x *mck.X, r *mapRun, states []*verifiable.MapTreeState)) {
		for _, u := range universes(c) {
			for _, full := range []bool{true, false} {
				depth := depthFull
				if !full {
					depth = depthSmall
				}
				u, full := u, full
				c.Explore(fmt.Sprintf("sequences of %d over %s (all ops: %v)", depth, u.name, full), func(x *mck.X) {
					r := newMapRun(world.Instant(), "m")
					states := []*verifiable.MapTreeState{nil}
					for i := 0; i < depth; i++ {
						mutationOp(x, r, u.mutate, full)
						st, err := r.m.VerifiedLatestMapState(ctx, nil)
						x.Assert(err == nil && st.TreeSize() == int64(r.n()), "verified state at %d: %v", r.n(), err)
						states = append(states, st)
					}
					f(x, r, states)
					x.C.Trace(1)
				})
			}
		}
	}
	exploreStates(c.Pick(2, 3), c.Pick(3, 4), func(x *mck.X, r *mapRun, states []*verifiable.MapTreeState) {
		n := r.n()
		for h := 1; h <= n; h++ {
			for p := 0; p <= n; p++ {
				r.audit(x, states[p], states[h], p, h, true, true)
			}
		}
		r.audit(x, nil, states[n], 0, n, false, false)
		r.audit(x, nil, states[n], 0, n, true, false)
		r.audit(x, nil, states[n], 0, n, false, true)
		x.Assert(r.m.VerifyMap(ctx, nil, nil, nil, nil) != nil, "audit to no state succeeded")
		// a callback that stops the audit
		wc, wv := r.effective(n)
		for at := range wc {
			k := 0
			err := r.m.VerifyMap(ctx, nil, states[n], nil, func(context.Context, int64, []byte, *pb.LeafData) error {
				k++
				if k == at+1 {
					return stop
				}
				return nil
			})
			x.Assert(err == stop && k == at+1, "audit callback failed at call %d: audit returned %v after %d calls", at+1, err, k)
		}
		for at := range wv {
			k := 0
			err := r.m.VerifyMap(ctx, nil, states[n], func(context.Context, *pb.LeafData) error {
				k++
				if k == at+1 {
					return stop
				}
				return nil
			}, nil)
			x.Assert(err == stop && k == at+1, "leaf callback failed at call %d: audit returned %v after %d calls", at+1, err, k)
		}
	})
	// the map grows while it is audited
	for _, u := range universes(c)[:c.Pick(2, 5)] {
		u := u
		c.Explore("growing during the audit, "+u.name, func(x *mck.X) {
			r := newMapRun(world.Instant(), "m")
			var st *verifiable.MapTreeState
			before := x.Range(1, c.Pick(2, 3), "audited size")
			for i := 0; i < before; i++ {
				mutationOp(x, r, u.mutate, false)
			}
			st, err := r.m.VerifiedLatestMapState(ctx, nil)
			x.Assert(err == nil, "verified state: %v", err)
			grow := func() {
				n0 := r.n()
				r.do(x, "set", u.mutate[n0%len(u.mutate)], world.Leaf(fmt.Sprint("during ", n0), ""), nil)
			}
			if x.Bool("grown before the audit") {
				grow()
			}
			n := r.n()
			at := x.Choose(3, "grow in call")
			var calls []auditCall
			k := 0
			err = r.m.VerifyMap(ctx, nil, st, nil, func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
				if k == at {
					grow()
				}
				k++
				calls = append(calls, auditCall{idx, key, v})
				return nil
			})
			x.Assert(err == nil, "audit to %d of a map that grows from %d: %v", before, n, err)
			wc, _ := r.effective(n)
			x.Assert(sameCalls(calls, wc), "audit of a growing map reported %s, effective are %s", strCalls(calls), strCalls(wc))
			x.C.Trace(1)
		})
	}
	auditsFromReplicas(c)
	// long histories
	var states []*verifiable.MapTreeState
	marks := map[int]bool{1: true, 2: true, 7: true, 8: true, 255: true, 256: true, 499: true, 500: true, 501: true, 502: true, 1000: true, 1001: true}
	big := c.Pick(503, 1030)
	bigMap(c, big, func(x *mck.X, r *mapRun, keys [][]byte, i int) {
		n := i + 1
		if i == 0 {
			states = []*verifiable.MapTreeState{nil}
		}
		if marks[n] || n == big {
			st, err := r.m.VerifiedLatestMapState(ctx, nil)
			x.Assert(err == nil, "verified state at %d: %v", n, err)
			states = append(states, st)
			if n > 490 {
				for j, p := range states[:len(states)-1] {
					if j > 1 && j < len(states)-4 {
						continue
					}
					pn := 0
					if p != nil {
						pn = int(p.TreeSize())
					}
					r.audit(x, p, st, pn, n, true, true)
				}
			}
		}
	})
}

// ------------------------------------------------------------------ A02

// entryOf makes a log entry the way the map does.
func entryOf(o proto.Message, mutation bool) *pb.LeafData {
	var ld *pb.LeafData
	var err error
	if mutation {
		ld, err = verifiable.CreateJSONLeafDataFromMutation(o.(*pb.MapMutation))
	} else {
		ld, err = verifiable.CreateJSONLeafDataFromObject(o)
	}
	if err != nil {
		panic("mck: " + err.Error())
	}
	return ld
}

// claim is one entry of a log, and what it means; nil: nothing valid.
type claim struct {
	e    *pb.LeafData
	mut  *pb.MapMutation
	head *pb.MapTreeHashResponse
}

func mutClaim(m *pb.MapMutation) claim {
	return claim{e: entryOf(m, true), mut: m}
}
func headClaim(h *pb.MapTreeHashResponse) claim {
	return claim{e: entryOf(h, false), head: h}
}

// rawClaim is an entry with the right object hash for arbitrary JSON.
func rawClaim(s string) claim {
	ld, err := verifiable.CreateJSONLeafData([]byte(s))
	if err != nil {
		ld = &pb.LeafData{LeafInput: []byte(s), ExtraData: []byte(s)}
	}
	return claim{e: ld}
}

func withWrongHash(c claim) claim {
	e := proto.Clone(c.e).(*pb.LeafData)
	e.LeafInput = append([]byte{}, e.LeafInput...)
	e.LeafInput[3] ^= 1
	return claim{e: e}
}

// truthful says whether heads [p,h) state what replaying muts gives.
func truthful(muts, heads []claim, p, h int) bool {
	st := ref.NewMap()
	t := &ref.Tree{}
	roots := [][]byte{st.Root()}
	for _, m := range muts {
		if m.mut == nil {
			break
		}
		switch m.mut.Action {
		case "set":
			st.Set(m.mut.Key, m.mut.Value.GetLeafInput())
		case "delete":
			st.Set(m.mut.Key, nil)
		case "update":
			if bytes.Equal(m.mut.PreviousLeafHash, st.LeafHash(m.mut.Key)) {
				st.Set(m.mut.Key, m.mut.Value.GetLeafInput())
			}
		default:
			goto done
		}
		t.Add(m.e.LeafInput)
		roots = append(roots, st.Root())
	}
done:
	for _, c := range heads[p:h] {
		if c.head == nil || c.head.MutationLog == nil {
			return false
		}
		s := c.head.MutationLog.TreeSize
		if s < 1 || s >= int64(len(roots)) {
			return false
		}
		if !bytes.Equal(c.head.RootHash, roots[s]) || !bytes.Equal(c.head.MutationLog.RootHash, t.Root(int(s))) {
			return false
		}
	}
	return true
}

func cloneHead(h *pb.MapTreeHashResponse) *pb.MapTreeHashResponse {
	return proto.Clone(h).(*pb.MapTreeHashResponse)
}

// retell recomputes the heads that replaying muts gives.
func retell(muts []claim, mapToo bool, old []claim) []claim {
	st := ref.NewMap()
	t := &ref.Tree{}
	var rv []claim
	for i, m := range muts {
		if m.mut != nil {
			switch m.mut.Action {
			case "set":
				st.Set(m.mut.Key, m.mut.Value.GetLeafInput())
			case "delete":
				st.Set(m.mut.Key, nil)
			case "update":
				if bytes.Equal(m.mut.PreviousLeafHash, st.LeafHash(m.mut.Key)) {
					st.Set(m.mut.Key, m.mut.Value.GetLeafInput())
				}
			}
		}
		t.Add(m.e.LeafInput)
		root := st.Root()
		if !mapToo && i < len(old) {
			root = old[i].head.GetRootHash()
		}
		rv = append(rv, headClaim(&pb.MapTreeHashResponse{RootHash: root, MutationLog: &pb.LogTreeHashResponse{TreeSize: int64(i + 1), RootHash: t.Root(i + 1)}}))
	}
	return rv
}

// mutDeviations are the single deviations of a mutation log.
func mutDeviations(muts []claim) map[string][]claim {
	rv := map[string][]claim{}
	rep := func(what string, i int, cl ...claim) {
		n := append([]claim{}, muts[:i]...)
		n = append(n, cl...)
		rv[fmt.Sprintf("mutation %d %s", i, what)] = append(n, muts[i+1:]...)
	}
	for i, m := range muts {
		edit := func(what string, f func(m *pb.MapMutation)) {
			c := proto.Clone(m.mut).(*pb.MapMutation)
			f(c)
			rep(what, i, mutClaim(c))
		}
		edit("other value", func(m *pb.MapMutation) { m.Value = world.Leaf("lie", "") })
		edit("no value", func(m *pb.MapMutation) { m.Value = nil })
		edit("empty value", func(m *pb.MapMutation) { m.Value = &pb.LeafData{} })
		edit("other key", func(m *pb.MapMutation) { m.Key = []byte("elsewhere") })
		edit("no key", func(m *pb.MapMutation) { m.Key = nil })
		for _, a := range []string{"set", "delete", "update", "", "bogus", "Set"} {
			if a != m.mut.Action {
				a := a
				edit("action "+a, func(m *pb.MapMutation) { m.Action = a })
			}
		}
		edit("other previous hash", func(m *pb.MapMutation) { m.PreviousLeafHash = ref.Leaf([]byte("zz")) })
		edit("other time", func(m *pb.MapMutation) { m.Timestamp = "2001-01-01T00:00:00Z" })
		rep("with a wrong hash", i, withWrongHash(m))
		for _, s := range []string{"null", "{}", "[]", "1", "\"x\"", "{\"action\":1}", "{\"value\":[]}", "not json", ""} {
			rep("is "+s, i, rawClaim(s))
		}
		rep("is an empty entry", i, claim{e: &pb.LeafData{}})
		rep("dropped", i)
		rep("twice", i, m, m)
		if i+1 < len(muts) {
			n := append([]claim{}, muts...)
			n[i], n[i+1] = n[i+1], n[i]
			rv[fmt.Sprintf("mutations %d and %d swapped", i, i+1)] = n
			n = append([]claim{}, muts...)
			n[i+1] = n[i]
			rv[fmt.Sprintf("mutation %d instead of %d", i, i+1)] = n
		}
		rv[fmt.Sprintf("mutations cut at %d", i)] = append([]claim{}, muts[:i]...)
	}
	return rv
}

// headDeviations are the single deviations of a tree head log.
func headDeviations(heads []claim) map[string][]claim {
	rv := map[string][]claim{}
	rep := func(what string, i int, cl ...claim) {
		n := append([]claim{}, heads[:i]...)
		n = append(n, cl...)
		rv[fmt.Sprintf("head %d %s", i, what)] = append(n, heads[i+1:]...)
	}
	for i, m := range heads {
		edit := func(what string, f func(m *pb.MapTreeHashResponse)) {
			c := cloneHead(m.head)
			f(c)
			rep(what, i, headClaim(c))
		}
		edit("other root", func(m *pb.MapTreeHashResponse) { m.RootHash = ref.Leaf([]byte("lie")) })
		edit("no root", func(m *pb.MapTreeHashResponse) { m.RootHash = nil })
		edit("root cut", func(m *pb.MapTreeHashResponse) { m.RootHash = m.RootHash[:31] })
		edit("root extended", func(m *pb.MapTreeHashResponse) { m.RootHash = append(m.RootHash, 0) })
		edit("other log root", func(m *pb.MapTreeHashResponse) { m.MutationLog.RootHash = ref.Leaf([]byte("lie")) })
		edit("no log root", func(m *pb.MapTreeHashResponse) { m.MutationLog.RootHash = nil })
		edit("no log", func(m *pb.MapTreeHashResponse) { m.MutationLog = nil })
		for _, s := range []int64{0, -1, int64(i), int64(i + 2), int64(len(heads) + 1), 1 << 62, -1 << 63} {
			if s != m.head.MutationLog.TreeSize {
				s := s
				edit(fmt.Sprint("size ", s), func(m *pb.MapTreeHashResponse) { m.MutationLog.TreeSize = s })
			}
		}
		for j := range heads {
			if j == i {
				continue
			}
			o := heads[j]
			edit(fmt.Sprint("root of ", j), func(m *pb.MapTreeHashResponse) { m.RootHash = o.head.RootHash })
			edit(fmt.Sprint("log of ", j), func(m *pb.MapTreeHashResponse) { m.MutationLog = o.head.MutationLog })
			edit(fmt.Sprint("log root of ", j), func(m *pb.MapTreeHashResponse) { m.MutationLog.RootHash = o.head.MutationLog.RootHash })
			rep(fmt.Sprint("is ", j), i, o)
		}
		edit("default root", func(m *pb.MapTreeHashResponse) { m.RootHash = ref.Default[0] })
		rep("with a wrong hash", i, withWrongHash(m))
		for _, s := range []string{"null", "{}", "[]", "1", "\"x\"", "{\"mutation_log\":null}", "{\"mutation_log\":1}", "{\"mutation_log\":{}}", "{\"mutation_log\":{\"tree_size\":\"1\"}}", "{\"mutation_log\":{\"tree_size\":1e30}}", "not json", ""} {
			rep("is "+s, i, rawClaim(s))
		}
		rep("is an empty entry", i, claim{e: &pb.LeafData{}})
		rep("dropped", i)
		rep("twice", i, m, m)
	}
	return rv
}

func entries(cs []claim) []*pb.LeafData {
	rv := make([]*pb.LeafData, len(cs))
	for i := range cs {
		rv[i] = cs[i].e
	}
	return rv
}

func sortedNames(m map[string][]claim) []string {
	var rv []string
	for k := range m {
		rv = append(rv, k)
	}
	sortStrings(rv)
	return rv
}

// honestHistory is a small map history.
func honestHistory(x *mck.X, which, n int) *mapRun {
	r := newMapRun(world.Instant(), "m")
	type op struct {
		a, k, v, prev string
	}
	hist := [][]op{
		{{"set", "a", "1", ""}, {"set", "b", "2", ""}, {"update", "a", "3", "no"}, {"delete", "b", "", ""}, {"update", "a", "4", "1"}, {"set", "c", "", ""}, {"set", "d", "5", ""}},
		{{"delete", "x", "", ""}, {"set", "x", "1", ""}, {"set", "x", "1", ""}, {"set", "y", "1", ""}, {"update", "y", "", "1"}, {"set", "x", "2", ""}},
		{{"set", "a", "1", ""}, {"set", "b", "2", ""}, {"set", "e", "other", ""}, {"set", "f", "fork", ""}, {"delete", "a", "", ""}, {"set", "a", "9", ""}},
	}[which]
	for i := 0; i < n; i++ {
		o := hist[i%len(hist)]
		k := []byte(o.k)
		if o.a == "set" && o.k == "b" {
			k = ref.Base
		}
		switch o.a {
		case "delete":
			if o.k == "b" {
				k = ref.Base
			}
			r.do(x, "delete", k, nil, nil)
		case "set":
			r.do(x, "set", k, &pb.LeafData{LeafInput: []byte(o.v), ExtraData: []byte("x")}, nil)
		case "update":
			r.do(x, "update", k, world.Leaf(o.v, ""), ref.Leaf([]byte(o.prev)))
		}
	}
	return r
}

// fixed is the history as reference data.
func (r *mapRun) fixed(name string) *liar.Fixed {
	f := liar.FromService(r.s, "m", tMut, tHead)
	f.Name = name
	f.Hist = r.hist
	f.Vals = r.vals
	for _, h := range r.hist {
		f.Roots = append(f.Roots, h.Root())
	}
	return f
}

func claims(f *liar.Fixed) (muts, heads []claim) {
	for _, e := range f.Logs[tMut] {
		m := &pb.MapMutation{}
		if err := json.Unmarshal(e.ExtraData, m); err != nil {
			panic("mck: " + err.Error())
		}
		muts = append(muts, claim{e: e, mut: m})
	}
	for _, e := range f.Logs[tHead] {
		h := &pb.MapTreeHashResponse{}
		if err := json.Unmarshal(e.ExtraData, h); err != nil {
			panic("mck: " + err.Error())
		}
		heads = append(heads, claim{e: e, head: h})
	}
	return
}

func runA02(c *mck.C) {
	for which := 0; which < 2; which++ {
		which := which
		n := c.Pick(4, 6)
		var once sync.Once
		var muts, heads []claim
		var md, hd map[string][]claim
		var mn, hn []string
		c.Explore(fmt.Sprint("committed lies in history ", which), func(x *mck.X) {
			once.Do(func() {
				muts, heads = claims(honestHistory(&mck.X{}, which, n).fixed("honest"))
				md, hd = mutDeviations(muts), headDeviations(heads)
				md["mutations as they are"] = muts
				hd["heads as they are"] = heads
				mn, hn = sortedNames(md), sortedNames(hd)
			})
			i := x.Choose(len(mn), "mutations")
			ms := md[mn[i]]
			mode := x.Choose(3, "heads")
			hs := heads
			what := mn[i]
			switch mode {
			case 0:
				j := x.Choose(len(hn), "head deviation")
				hs = hd[hn[j]]
				what += ", " + hn[j]
			case 1:
				hs = retell(ms, false, heads)
				what += ", log heads retold"
			case 2:
				hs = retell(ms, true, heads)
				what += ", heads retold"
			}
			if len(hs) == 0 {
				x.Prune()
			}
			f := &liar.Fixed{Name: "committed lie", Logs: map[pb.LogType][]*pb.LeafData{tMut: entries(ms), tHead: entries(hs)}}
			srv := &honestServer{f: f}
			m := world.Map(srv, "m")
			for p := 0; p < len(hs); p++ {
				var prev *verifiable.MapTreeState
				if p > 0 {
					prev = &verifiable.MapTreeState{TreeHeadLogTreeHead: f.Head(tHead, p)}
				}
				head := &verifiable.MapTreeState{TreeHeadLogTreeHead: f.Head(tHead, len(hs))}
				err := m.VerifyMap(ctx, prev, head, nil, func(context.Context, int64, []byte, *pb.LeafData) error { return nil })
				ok := truthful(ms, hs, p, len(hs))
				x.Assert(err != nil || ok, "audit from %d to %d of a map with a lie succeeds: %s", p, len(hs), what)
				x.Assert(err == nil || !ok || !allValid(ms), "audit from %d to %d of a truthful map fails: %v (%s)", p, len(hs), err, what)
				x.C.Transition(1)
				x.C.Eval(!ok, what, p)
			}
			x.C.State("lie", what)
			x.C.Trace(1)
		})
	}
	// lies in the responses
	var cache liar.Cache
	h := honestHistory(&mck.X{}, 0, 5)
	fork := honestHistory(&mck.X{}, 2, 6)
	fh, ff := h.fixed("the honest history"), fork.fixed("the fork")
	// make the fork share the first two mutations' entries: it is built from the honest ones
	if len(ff.Logs[tMut]) > 2 {
		ms, _ := claims(fh)
		fm, _ := claims(ff)
		all := append(append([]claim{}, ms[:2]...), fm[2:]...)
		ff = fixedFrom("the fork", all)
	}
	junk := [][]byte{[]byte("null"), []byte("{}"), []byte("[]"), {}}
	for p := 0; p < 5; p++ {
		p := p
		budget := 2
		if c.Quick() && p != 0 && p != 3 {
			budget = 1
		}
		c.Explore(fmt.Sprint("lies in responses, from ", p), func(x *mck.X) {
			name := fmt.Sprint("p", p)
			mk := func() *liar.Server {
				return &liar.Server{MaxCalls: 60,
					Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(fh, req) },
					Menu: func(_ string, req proto.Message, base liar.Alt) []liar.Alt {
						alts := []liar.Alt{liar.Honest(ff, req), {What: "failure", Err: errors.New("no")}}
						for _, r := range liar.Requests(req) {
							a := liar.Honest(fh, r)
							if a.Err == nil {
								a.What = "answer to another request"
								alts = append(alts, a)
							}
						}
						if base.Resp != nil {
							alts = append(alts, liar.Perturb(base.Resp, liar.Opts{Strings: junk, Nil: true})...)
						}
						return alts
					}}
			}
			cache.Deviate(x, name, budget, mk, func(s *liar.Server, check bool) {
				var prev *verifiable.MapTreeState
				if p > 0 {
					prev = &verifiable.MapTreeState{TreeHeadLogTreeHead: fh.Head(tHead, p)}
				}
				head := &verifiable.MapTreeState{TreeHeadLogTreeHead: fh.Head(tHead, 5)}
				var calls []auditCall
				err := world.Map(s, "m").VerifyMap(ctx, prev, head, func(context.Context, *pb.LeafData) error { return nil }, func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
					calls = append(calls, auditCall{idx, key, v})
					return nil
				})
				if !check || err != nil {
					return
				}
				wc, _ := h.effective(5)
				for i, w := range wc {
					x.Assert(i < len(calls) && calls[i].idx == w.idx && bytes.Equal(calls[i].key, w.key) && bytes.Equal(calls[i].value.GetLeafInput(), w.value.GetLeafInput()),
						"audit succeeded although the server lied (%v): it reported %s, effective are %s", s.Used, strCalls(calls), strCalls(wc))
				}
				if len(calls) > len(wc) {
					x.Assert(calls[len(wc)].idx >= 5, "audit succeeded although the server lied (%v): it reported %s, effective are %s", s.Used, strCalls(calls), strCalls(wc))
				}
				x.C.State("accepted", p, fmt.Sprint(s.Used))
			})
		})
	}
}

// fixedFrom is the truthful history with the given mutations.
func fixedFrom(name string, muts []claim) *liar.Fixed {
	f := &liar.Fixed{Name: name, Logs: map[pb.LogType][]*pb.LeafData{tMut: entries(muts), tHead: entries(retell(muts, true, nil))}}
	st := ref.NewMap()
	vals := map[string]*pb.LeafData{}
	push := func() {
		v := map[string]*pb.LeafData{}
		for k, l := range vals {
			v[k] = l
		}
		f.Hist = append(f.Hist, st.Clone())
		f.Roots = append(f.Roots, st.Root())
		f.Vals = append(f.Vals, v)
	}
	push()
	for _, m := range muts {
		v := m.mut.Value
		if m.mut.Action == "update" && !bytes.Equal(m.mut.PreviousLeafHash, st.LeafHash(m.mut.Key)) {
			push()
			continue
		}
		st.Set(m.mut.Key, v.GetLeafInput())
		if len(v.GetLeafInput()) == 0 {
			delete(vals, string(m.mut.Key))
		} else {
			vals[string(m.mut.Key)] = v
		}
		push()
	}
	return f
}

// allValid says whether the whole mutation log is well formed.
func allValid(ms []claim) bool {
	for _, m := range ms {
		if m.mut == nil {
			return false
		}
		switch m.mut.Action {
		case "set", "delete", "update":
		default:
			return false
		}
	}
	return true
}

// honestServer serves one history.
type honestServer struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	f *liar.Fixed
}

func (s *honestServer) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	a := liar.Honest(s.f, r)
	v, _ := a.Resp.(*pb.LogTreeHashResponse)
	return v, a.Err
}
func (s *honestServer) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	a := liar.Honest(s.f, r)
	v, _ := a.Resp.(*pb.LogInclusionProofResponse)
	return v, a.Err
}
func (s *honestServer) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	a := liar.Honest(s.f, r)
	v, _ := a.Resp.(*pb.LogConsistencyProofResponse)
	return v, a.Err
}
func (s *honestServer) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	a := liar.Honest(s.f, r)
	v, _ := a.Resp.(*pb.LogFetchEntriesResponse)
	return v, a.Err
}
