package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"

	"verifmc/liar"
	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "C01", Run: runC01, Budget: 150 * time.Second,
		Rule:        "two histories sharing a prefix (every fork point); every verifying call of the log and map clients with every previous state of the first history; the server answers each request from either history, at any nearby size, or with any single field deviation; all combinations of two such deviations per call (log: up to 4 for answers of the other history), and chains of two calls",
		Assumptions: []string{"SHA-256 is collision free", "with no previous state any self-consistent history is acceptable"}})
}

// family is the set of histories that a server may tell.
type family []*liar.Fixed

// extends says whether a log head of one size is consistent with one of
// another, in either order, in some history.
func (fs family) extends(t pb.LogType, a, b *pb.LogTreeHashResponse) bool {
	for _, f := range fs {
		if isHead(f, t, a) && isHead(f, t, b) {
			return true
		}
	}
	return false
}

func isHead(f *liar.Fixed, t pb.LogType, h *pb.LogTreeHashResponse) bool {
	return h.GetTreeSize() >= 1 && h.GetTreeSize() <= int64(f.N(t)) && bytes.Equal(h.GetRootHash(), f.Head(t, int(h.TreeSize)).RootHash)
}

func (fs family) known(t pb.LogType, h *pb.LogTreeHashResponse) bool {
	for _, f := range fs {
		if isHead(f, t, h) {
			return true
		}
	}
	return false
}

// contains says whether a leaf is below a head.
func (fs family) contains(t pb.LogType, h *pb.LogTreeHashResponse, leaf []byte, idx int64) bool {
	for _, f := range fs {
		if !isHead(f, t, h) {
			continue
		}
		for i, l := range f.Tree(t).L[:h.TreeSize] {
			if bytes.Equal(l, leaf) && (idx < 0 || idx == int64(i)) {
				return true
			}
		}
	}
	return false
}

// logFamily makes two logs that share the first f entries, and one that is a
// longer honest continuation of the first.
func logFamily(n, fork, m int) family {
	mk := func(name string, n int, from int, tag string) *liar.Fixed {
		f := &liar.Fixed{Name: name, Logs: map[pb.LogType][]*pb.LeafData{}}
		for i := 0; i < n; i++ {
			s := fmt.Sprint("entry ", i)
			if i >= from {
				s += tag
			}
			f.Logs[tLog] = append(f.Logs[tLog], &pb.LeafData{LeafInput: []byte(s)})
		}
		return f
	}
	return family{mk("the honest history", n, n, ""), mk("the fork", m, fork, " forked")}
}

// mapFamily is two maps that share the first mutations.
func mapFamily(fork int) family {
	h := honestHistory(&mck.X{}, 0, 6)
	o := honestHistory(&mck.X{}, 2, 6)
	fh, fo := h.fixed("the honest history"), o.fixed("the other")
	ms, _ := claims(fh)
	om, _ := claims(fo)
	a := fixedFrom("the honest history", ms)
	b := fixedFrom("the fork", append(append([]claim{}, ms[:fork]...), om[fork:]...))
	return family{a, b}
}

// splitFamily is two histories of a map of which only parts differ, as a server
// that lies carefully has them: its tree head log goes on honestly and then has
// the heads of the fork as well, or nothing but its tree head log differs.
func splitFamily(kind, fork int) (fs family, name string) {
	fs = mapFamily(fork)
	a, b := fs[0], fs[1]
	if kind == 0 {
		b.Logs[tHead] = append(append([]*pb.LeafData{}, a.Logs[tHead]...), b.Logs[tHead][fork:]...)
		b.Name = "the fork with all heads"
		return fs, fmt.Sprintf("fork at %d, one log of all heads", fork)
	}
	heads := append([]*pb.LeafData{}, a.Logs[tHead][:fork]...)
	heads = append(append(heads, b.Logs[tHead][len(b.Logs[tHead])-1]), a.Logs[tHead][fork:]...)
	fs[1] = &liar.Fixed{Name: "the fork of the heads", Logs: map[pb.LogType][]*pb.LeafData{tMut: a.Logs[tMut], tHead: heads}, Hist: a.Hist, Roots: a.Roots, Vals: a.Vals}
	return fs, fmt.Sprintf("fork of the heads at %d", fork)
}

var pathIdx = func(n int) []int {
	if n < 20 {
		rv := make([]int, n)
		for i := range rv {
			rv[i] = i
		}
		return rv
	}
	return []int{0, 1, 2, 3, n - 2, n - 1}
}

// menuOf is every deviation: the other histories, other requests, other fields.
func menuOf(fs family, fields bool) func(string, proto.Message, liar.Alt) []liar.Alt {
	return func(_ string, req proto.Message, base liar.Alt) []liar.Alt {
		var alts []liar.Alt
		for _, f := range fs[1:] {
			alts = append(alts, liar.Honest(f, req))
		}
		for _, f := range fs {
			for _, r := range liar.Requests(req) {
				a := liar.Honest(f, r)
				if a.Err == nil {
					a.What = "answer to another request by " + f.Name
					alts = append(alts, a)
				}
			}
		}
		if !fields {
			return alts
		}
		alts = append(alts, liar.Alt{What: "failure", Err: errors.New("no")})
		if base.Resp != nil {
			alts = append(alts, liar.Perturb(base.Resp, liar.Opts{Indexes: pathIdx, Strings: [][]byte{ref.Leaf([]byte("entry 0")), []byte("null")}})...)
		}
		return alts
	}
}

func server(fs family, fields bool) func() *liar.Server {
	return func() *liar.Server {
		return &liar.Server{MaxCalls: 40, Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(fs[0], req) }, Menu: menuOf(fs, fields),
			Other: func(_ string, req proto.Message) liar.Alt { return liar.Honest(fs[1], req) }}
	}
}

func head(h *pb.LogTreeHashResponse) string {
	return fmt.Sprintf("(%d %.8x)", h.GetTreeSize(), h.GetRootHash())
}

func runC01(c *mck.C) {
	var cache liar.Cache
	n := c.Pick(4, 7)
	for fork := 0; fork <= n; fork++ {
		for _, m := range []int{n, n + 2} {
			fs := logFamily(n, fork, m)
			if fork == n && m == n {
				continue
			}
			logClients(c, &cache, fs, n, fmt.Sprintf("fork at %d to %d", fork, m), c.Quick() && (fork != 2 || m == n))
		}
	}
	for fork := 0; fork <= 6; fork++ {
		mapClients(c, &cache, mapFamily(fork), 6, fmt.Sprintf("fork at %d", fork), c.Quick() && fork != 3)
	}
	for kind := 0; kind < 2; kind++ {
		for fork := 0; fork < 6; fork++ {
			if c.Quick() && fork%3 != 0 {
				continue
			}
			fs, name := splitFamily(kind, fork)
			mapStates(c, &cache, fs, 6, name, false, c.Pick(2, 3))
		}
	}
	rawLeafAttack(c)
	waiting(c)
	fromEmpty(c)
}

// fromEmpty: the head of a log that is still empty is as good a start as none.
func fromEmpty(c *mck.C) {
	c.Explore("from the head of an empty log", func(x *mck.X) {
		f := logFamily(x.Choose(5, "entries"), 0, 0)[0]
		n := f.N(tLog)
		s := &liar.Server{MaxCalls: 40, Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(f, req) }}
		s.Ready()
		l := world.Log(s, "l")
		prev := f.Head(tLog, 0)
		size := x.Range(-1, n, "requested size")
		var h *pb.LogTreeHashResponse
		var err error
		switch x.Choose(3, "call") {
		case 0:
			if size == -1 {
				h, err = l.VerifiedLatestTreeHead(ctx, prev)
			} else {
				h, err = l.VerifiedTreeHead(ctx, prev, int64(size))
			}
		case 1:
			if size < 1 {
				x.Prune()
			}
			i := x.Choose(size, "index")
			proof := liar.Honest(f, &pb.LogInclusionProofRequest{Log: &pb.LogRef{LogType: tLog}, TreeSize: int64(size), LeafIndex: int64(i)}).Resp.(*pb.LogInclusionProofResponse)
			h, err = l.VerifySuppliedInclusionProof(ctx, prev, proof, f.Tree(tLog).L[i])
		default:
			if size < 1 {
				x.Prune()
			}
			h = f.Head(tLog, size)
			got := 0
			err = l.VerifyEntries(ctx, prev, h, func(_ context.Context, i int64, e *pb.LeafData) error {
				if int(i) != got || !bytes.Equal(e.LeafInput, f.Logs[tLog][i].LeafInput) {
					return fmt.Errorf("entry %d is presented as %v", i, e)
				}
				got++
				return nil
			})
			x.Assert(err != nil || got == size, "%d of %d entries were presented", got, size)
		}
		if size < 1 {
			size = n
		}
		x.Assert(err == nil && h.GetTreeSize() == int64(size) && bytes.Equal(h.GetRootHash(), f.Head(tLog, size).RootHash), "from the head of an empty log to %d of %d entries: %v, %v", size, n, h, err)
		c.State("from empty", n, size)
	})
}

func logClients(c *mck.C, cache *liar.Cache, fs family, n int, name string, light bool) {
	modes := []struct {
		fields bool
		budget int
	}{{true, 2}, {false, 4}}
	if light {
		modes = modes[1:]
		modes[0].budget = 2
	}
	for _, mode := range modes {
		mode := mode
		mk := server(fs, mode.fields)
		lie := fmt.Sprint(name, ", fields ", mode.fields)
		c.Explore("log heads, "+lie, func(x *mck.X) {
			p := x.Range(1, n, "previous size")
			size := x.Range(-1, n+2, "requested size")
			prev := fs[0].Head(tLog, p)
			cache.Deviate(x, fmt.Sprint("heads", lie, p, size), mode.budget, mk, func(s *liar.Server, check bool) {
				l := world.Log(s, "l")
				var h *pb.LogTreeHashResponse
				var err error
				if size == -1 {
					h, err = l.VerifiedLatestTreeHead(ctx, prev)
				} else {
					h, err = l.VerifiedTreeHead(ctx, prev, int64(size))
				}
				if !check {
					return
				}
				if err != nil {
					x.Assert(len(s.Used) > 0 || size > n, "honest head at %d after %d is refused: %v", size, p, err)
					return
				}
				x.Assert(fs.extends(tLog, prev, h), "head %s is returned after %s, but no history has both (%v)", head(h), head(prev), s.Used)
				if size == -1 {
					x.Assert(h.TreeSize >= prev.TreeSize, "latest head %s is older than %s (%v)", head(h), head(prev), s.Used)
				}
				c.State("accepted head", lie, p, size, h.TreeSize)
			})
		})
		c.Explore("consistency and inclusion, "+lie, func(x *mck.X) {
			what := x.Choose(2, "call")
			ua := x.Choose(2, "universe of a")
			na := x.Range(0, fs[ua].N(tLog), "size of a")
			a := fs[ua].Head(tLog, na)
			if what == 0 {
				ub := x.Choose(2, "universe of b")
				b := fs[ub].Head(tLog, x.Range(0, fs[ub].N(tLog), "size of b"))
				cache.Deviate(x, fmt.Sprint("cons", lie, ua, na, ub, b.TreeSize), 1, mk, func(s *liar.Server, check bool) {
					err := world.Log(s, "l").VerifyConsistency(ctx, a, b)
					if check && err == nil {
						x.Assert(fs.extends(tLog, a, b), "%s and %s are said to be consistent, but no history has both (%v)", head(a), head(b), s.Used)
					}
				})
				return
			}
			ul := x.Choose(2, "universe of the leaf")
			i := x.Choose(fs[ul].N(tLog)+1, "leaf")
			leaf := fs[0].Tree(tLog).Root(2)
			if i < fs[ul].N(tLog) {
				leaf = fs[ul].Tree(tLog).L[i]
			}
			cache.Deviate(x, fmt.Sprint("incl", lie, ua, na, ul, i), 1, mk, func(s *liar.Server, check bool) {
				err := world.Log(s, "l").VerifyInclusion(ctx, a, leaf)
				if check && err == nil {
					x.Assert(fs.contains(tLog, a, leaf, -1), "leaf %x is said to be included in %s, but it is not (%v)", leaf, head(a), s.Used)
				}
			})
		})
		c.Explore("supplied proofs, "+lie, func(x *mck.X) {
			p := x.Choose(n+1, "previous size")
			var prev *pb.LogTreeHashResponse
			if p > 0 {
				prev = fs[0].Head(tLog, p)
			}
			u := x.Choose(2, "universe of the proof")
			size := x.Range(1, fs[u].N(tLog), "size of the proof")
			i := x.Choose(size, "index of the proof")
			a := liar.Honest(fs[u], &pb.LogInclusionProofRequest{Log: &pb.LogRef{LogType: tLog}, TreeSize: int64(size), LeafIndex: int64(i)})
			proof := a.Resp.(*pb.LogInclusionProofResponse)
			leaf := fs[u].Tree(tLog).L[i]
			budget := 1
			if mode.fields && !light {
				alts := liar.Perturb(proof, liar.Opts{})
				v := x.Choose(len(alts)+2, "proof deviation")
				switch {
				case v == 1:
					leaf = fs[u].Tree(tLog).L[(i+1)%size]
				case v > 1:
					proof = alts[v-2].Resp.(*pb.LogInclusionProofResponse)
				}
				if v > 0 {
					budget = 0
				}
			}
			cache.Deviate(x, fmt.Sprint("supp", lie, p, u, size, i), budget, mk, func(s *liar.Server, check bool) {
				h, err := world.Log(s, "l").VerifySuppliedInclusionProof(ctx, prev, proof, leaf)
				if !check || err != nil {
					return
				}
				if prev != nil {
					x.Assert(fs.extends(tLog, prev, h), "supplied proof is accepted under head %s after %s, but no history has both (%v)", head(h), head(prev), s.Used)
					x.Assert(fs.contains(tLog, h, leaf, proof.LeafIndex), "supplied proof %v of leaf %x is accepted under head %s (%v)", proof, leaf, head(h), s.Used)
				} else if fs.known(tLog, h) {
					x.Assert(fs.contains(tLog, h, leaf, proof.LeafIndex), "supplied proof %v of leaf %x is accepted under head %s (%v)", proof, leaf, head(h), s.Used)
				}
			})
		})
		c.Explore("verified entries, "+lie, func(x *mck.X) {
			p := x.Choose(n+1, "previous size")
			up, uh := x.Choose(2, "universe of previous"), x.Choose(2, "universe of head")
			if p == 0 && up > 0 {
				x.Prune()
			}
			h := x.Range(1, fs[uh].N(tLog), "size")
			if p > fs[up].N(tLog) {
				x.Prune()
			}
			hd := fs[uh].Head(tLog, h)
			var prev *pb.LogTreeHashResponse
			if p > 0 {
				prev = fs[up].Head(tLog, p)
			}
			budget := mode.budget
			if budget > 2 {
				budget = 2
			}
			if mode.fields && c.Quick() && (p+h)%3 != 0 {
				budget = 1
			}
			cache.Deviate(x, fmt.Sprint("entries", lie, p, up, h, uh), budget, mk, func(s *liar.Server, check bool) {
				var mu sync.Mutex
				var got []string
				next := int64(p)
				err := world.Log(s, "l").VerifyEntries(ctx, prev, hd, func(_ context.Context, idx int64, e *pb.LeafData) error {
					mu.Lock()
					defer mu.Unlock()
					if idx != next {
						return errors.New("index")
					}
					next++
					got = append(got, string(e.GetLeafInput()))
					return nil
				})
				if !check || err != nil || h <= p {
					return
				}
				ok := false
				for _, f := range fs {
					if !isHead(f, tLog, hd) || (prev != nil && !isHead(f, tLog, prev)) {
						continue
					}
					ok = true
					x.Assert(len(got) == h-p, "audit from %d to %d presented %d entries (%v)", p, h, len(got), s.Used)
					for i := range got {
						x.Assert(got[i] == string(f.Logs[tLog][p+i].LeafInput), "audit from %d to %d accepted entry %d as %q, it is %q (%v)", p, h, p+i, got[i], f.Logs[tLog][p+i].LeafInput, s.Used)
					}
				}
				x.Assert(ok, "audit from %s to %s succeeded, but no history has both (%v)", head(prev), head(hd), s.Used)
			})
		})
	}
}

// soundState says what is wrong with a map state accepted after prev.
func (fs family) soundState(prev, st *verifiable.MapTreeState) string {
	mh := st.MapTreeHead
	if prev != nil {
		if prev == st {
			return ""
		}
		if !fs.extends(tMut, prev.MapTreeHead.MutationLog, mh.GetMutationLog()) {
			return "no history has the mutation log of both states"
		}
		if st.TreeHeadLogTreeHead != prev.TreeHeadLogTreeHead && !fs.extends(tHead, prev.TreeHeadLogTreeHead, st.TreeHeadLogTreeHead) {
			return "no history has the tree head log of both states"
		}
	}
	if prev == nil && !fs.known(tHead, st.TreeHeadLogTreeHead) {
		return "" // any self-consistent tree
	}
	e := entryOf(mh, false)
	if !fs.contains(tHead, st.TreeHeadLogTreeHead, ref.Leaf(e.LeafInput), -1) {
		return "the map head is not in the tree head log"
	}
	return ""
}

func (fs family) state(u, k, th int) *verifiable.MapTreeState {
	return &verifiable.MapTreeState{MapTreeHead: fs[u].MapHead(k), TreeHeadLogTreeHead: fs[u].Head(tHead, th)}
}

func strState(s *verifiable.MapTreeState) string {
	if s == nil {
		return "nothing"
	}
	return fmt.Sprintf("{root %.8x, mutations %s, heads %s}", s.MapTreeHead.GetRootHash(), head(s.MapTreeHead.GetMutationLog()), head(s.TreeHeadLogTreeHead))
}

func mapClients(c *mck.C, cache *liar.Cache, fs family, n int, name string, light bool) {
	modes := []struct {
		fields bool
		budget int
	}{{true, c.Pick(1, 2)}, {false, c.Pick(2, 3)}}
	if light {
		modes = modes[1:]
	}
	for _, mode := range modes {
		mode := mode
		mk := server(fs, mode.fields)
		lie := fmt.Sprint(name, ", fields ", mode.fields)
		mapStates(c, cache, fs, n, name, mode.fields, mode.budget)
		keys := [][]byte{[]byte("a"), ref.Base, []byte("d"), []byte("absent")}
		c.Explore("map values, "+lie, func(x *mck.X) {
			u := x.Choose(2, "universe")
			k := x.Range(1, len(fs[u].Roots)-1, "size")
			key := keys[x.Choose(len(keys), "key")]
			st := fs.state(u, k, k)
			cache.Deviate(x, fmt.Sprint("get", lie, u, k, string(key)), 1, func() *liar.Server {
				s := mk()
				menu := s.Menu
				s.Menu = func(method string, req proto.Message, base liar.Alt) []liar.Alt {
					alts := menu(method, req, base)
					for _, f := range fs {
						for _, ok := range keys {
							r := proto.Clone(req).(*pb.MapGetValueRequest)
							r.Key = ok
							a := liar.Honest(f, r)
							if a.Err != nil {
								continue
							}
							a.What = fmt.Sprintf("value of %q in %s", ok, f.Name)
							alts = append(alts, a)
							// the right proof with another value
							for _, v := range []string{"", "1", "2", "4", "5", "9", "other", "fork"} {
								g := proto.Clone(a.Resp).(*pb.MapGetValueResponse)
								g.Value = &pb.LeafData{LeafInput: []byte(v)}
								alts = append(alts, liar.Alt{What: fmt.Sprintf("proof of %q in %s with value %q", ok, f.Name, v), Resp: g})
							}
						}
					}
					return alts
				}
				return s
			}, func(s *liar.Server, check bool) {
				v, err := world.Map(s, "m").VerifiedGet(ctx, key, st)
				if !check {
					return
				}
				if err != nil {
					x.Assert(len(s.Used) > 0 || u != 0, "honest value of %q at %d is refused: %v", key, k, err)
					return
				}
				want := fs[u].Vals[k][string(key)]
				x.Assert(bytes.Equal(v.GetLeafInput(), want.GetLeafInput()), "value of %q under %s is accepted as %s, it is %s (%v)", key, strState(st), world.Str(v), world.Str(want), s.Used)
				c.State("accepted value", lie, u, k, string(key))
			})
		})
	}
}

func mapStates(c *mck.C, cache *liar.Cache, fs family, n int, name string, fields bool, budget int) {
	mk := server(fs, fields)
	lie := fmt.Sprint(name, ", fields ", fields)
	c.Explore("map states, "+lie, func(x *mck.X) {
		p := x.Choose(n+1, "previous size")
		var prev *verifiable.MapTreeState
		if p > 0 {
			th := p
			if p < n && x.Bool("newer tree head log head") {
				th = n
			}
			prev = fs.state(0, p, th)
		}
		size := x.Range(-1, n+1, "requested size")
		cache.Deviate(x, fmt.Sprint("states", lie, p, strState(prev), size), budget, mk, func(s *liar.Server, check bool) {
			m := world.Map(s, "m")
			var st *verifiable.MapTreeState
			var err error
			if size == -1 {
				st, err = m.VerifiedLatestMapState(ctx, prev)
			} else {
				st, err = m.VerifiedMapState(ctx, prev, int64(size))
			}
			if !check {
				return
			}
			if err != nil {
				x.Assert(len(s.Used) > 0 || size > n, "honest state at %d after %d is refused: %v", size, p, err)
				return
			}
			if st == nil {
				x.Assert(prev == nil && len(s.Used) > 0, "no state is returned after %s (%v)", strState(prev), s.Used)
				return
			}
			why := fs.soundState(prev, st)
			x.Assert(why == "", "state %s is accepted after %s: %s (%v)", strState(st), strState(prev), why, s.Used)
			if size == -1 && prev != nil {
				x.Assert(st.TreeSize() >= prev.TreeSize(), "latest state %s is older than %s", strState(st), strState(prev))
			}
			c.State("accepted state", lie, p, size, strState(st))
		})
	})
}

// rawLeafAttack has a server whose tree head log has, among its leaf hashes, a
// value that is no leaf hash: the object hash of a map head.
func rawLeafAttack(c *mck.C) {
	c.Explore("object hash in place of a leaf hash", func(x *mck.X) {
		fs := mapFamily(6)
		n := 6
		at := x.Choose(n, "position")
		p := x.Range(1, n, "previous size")
		k := x.Range(1, n, "size")
		lie := cloneHead(fs[0].MapHead(k))
		lie.RootHash = ref.Leaf([]byte("lie"))
		f := &liar.Fixed{Name: "the liar", Logs: fs[0].Logs, Hist: fs[0].Hist, Roots: append([][]byte{}, fs[0].Roots...), Vals: fs[0].Vals,
			RawLeaves: map[pb.LogType]map[int][]byte{tHead: {at: entryOf(lie, false).LeafInput}}}
		f.Roots[k] = lie.RootHash
		l := family{f}
		prev := &verifiable.MapTreeState{MapTreeHead: fs[0].MapHead(p), TreeHeadLogTreeHead: f.Head(tHead, n)}
		var cache liar.Cache
		cache.Deviate(x, "", 1, func() *liar.Server {
			return &liar.Server{MaxCalls: 40, Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(f, req) },
				Menu: func(_ string, req proto.Message, base liar.Alt) []liar.Alt {
					// a proof for whatever hash is asked, at the doctored position
					if r, ok := req.(*pb.LogInclusionProofRequest); ok {
						a := liar.Honest(f, &pb.LogInclusionProofRequest{Log: r.Log, TreeSize: r.TreeSize, LeafIndex: int64(at)})
						return []liar.Alt{a}
					}
					return nil
				}}
		}, func(s *liar.Server, check bool) {
			st, err := world.Map(s, "m").VerifiedMapState(ctx, prev, int64(k))
			if !check || err != nil || st == prev {
				return
			}
			why := l.soundState(nil, st)
			x.Assert(why == "", "state %s is accepted after %s: %s (%v)", strState(st), strState(prev), why, s.Used)
		})
	})
}

// poller answers the polls of a waiting client from lists, and fails after them.
type poller struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	heads []liar.Alt
	maps  []liar.Alt
	proof func(req *pb.LogInclusionProofRequest) liar.Alt

	polls int
	last  *pb.LogInclusionProofResponse
	asked []string
}

func (p *poller) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	p.asked = append(p.asked, fmt.Sprint("head ", r.TreeSize))
	if r.TreeSize != 0 || p.polls >= len(p.heads) {
		return nil, errors.New("that is all")
	}
	a := p.heads[p.polls]
	p.polls++
	if a.Err != nil {
		return nil, a.Err
	}
	return proto.Clone(a.Resp).(*pb.LogTreeHashResponse), nil
}

func (p *poller) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	p.asked = append(p.asked, fmt.Sprint("proof ", r.TreeSize))
	a := p.proof(r)
	p.last = nil
	if a.Err != nil {
		return nil, a.Err
	}
	p.last = a.Resp.(*pb.LogInclusionProofResponse)
	return proto.Clone(p.last).(*pb.LogInclusionProofResponse), nil
}

func (p *poller) MapTreeHash(_ context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	p.asked = append(p.asked, fmt.Sprint("map head ", r.TreeSize))
	if p.polls >= len(p.maps) {
		return nil, errors.New("that is all")
	}
	a := p.maps[p.polls]
	p.polls++
	if a.Err != nil {
		return nil, a.Err
	}
	return proto.Clone(a.Resp).(*pb.MapTreeHashResponse), nil
}

func (p *poller) LogAddEntry(_ context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return &pb.LogAddEntryResponse{LeafHash: ref.Leaf(r.Value.LeafInput)}, nil
}

// waiting has clients wait for an entry, or for a size, with servers that grow
// in every way, and with servers that lie. The client sleeps a second and more
// between polls, so all cases of an execution wait together.
func waiting(c *mck.C) {
	type answer struct {
		h    *pb.LogTreeHashResponse
		m    *pb.MapTreeHashResponse
		err  error
		done bool
	}
	type job struct {
		p    *poller
		run  func(s *poller) answer
		got  answer
		what string
		ok   func(j *job) string
	}
	wait := func(x *mck.X, jobs []*job) {
		var wg sync.WaitGroup
		for _, j := range jobs {
			j := j
			wg.Add(1)
			go func() {
				defer wg.Done()
				j.got = j.run(j.p)
				j.got.done = true
			}()
		}
		wg.Wait()
		for _, j := range jobs {
			if !j.got.done {
				x.Failf("%s: no answer", j.what)
			}
			if why := j.ok(j); why != "" {
				x.Failf("%s: %s (%s %v, after %v)", j.what, why, head(j.got.h), j.got.err, j.p.asked)
			}
			x.C.Transition(len(j.p.asked))
			x.C.State("waiting", j.what, head(j.got.h), j.got.err)
		}
		x.C.Trace(len(jobs))
	}
	present := func(leaf []byte, promise int, input []byte) func(s *poller) answer {
		return func(s *poller) answer {
			l := world.Log(s, "l")
			if promise == 0 {
				h, err := l.BlockUntilPresent(ctx, leaf)
				return answer{h: h, err: err}
			}
			p, err := l.Add(ctx, &pb.LeafData{LeafInput: input})
			if err != nil {
				return answer{err: err}
			}
			h, err := p.Wait(ctx)
			return answer{h: h, err: err}
		}
	}
	n := 4
	fs := logFamily(n, 2, n+1)
	honest := func(r *pb.LogInclusionProofRequest) liar.Alt { return liar.Honest(fs[0], r) }
	headAt := func(i int) liar.Alt { return liar.Alt{What: fmt.Sprint("size ", i), Resp: fs[0].Head(tLog, i)} }
	c.ExploreSerial("waiting, growth", func(x *mck.X) {
		var jobs []*job
		polls := c.Pick(2, 3)
		var sizes []int
		var rec func()
		rec = func() {
			if len(sizes) == polls {
				sizes := append([]int{}, sizes...)
				for leaf := 0; leaf <= n; leaf++ {
					input := []byte("entry in no log")
					if leaf < n {
						input = fs[0].Logs[tLog][leaf].LeafInput
					}
					want, most := -1, -1
					for _, s := range sizes {
						if s > most {
							most = s
							if s > leaf {
								want = s
								break
							}
						}
					}
					p := &poller{proof: honest}
					for _, s := range sizes {
						p.heads = append(p.heads, headAt(s))
					}
					jobs = append(jobs, &job{p: p, what: fmt.Sprintf("waiting for entry %d of a log of sizes %v", leaf, sizes), run: present(ref.Leaf(input), len(jobs)%2, input), ok: func(j *job) string {
						switch {
						case want < 0 && j.got.err == nil:
							return "no error when the server failed"
						case want >= 0 && (j.got.err != nil || !proto.Equal(j.got.h, fs[0].Head(tLog, want))):
							return fmt.Sprintf("not the head of size %d", want)
						}
						return ""
					}})
				}
				return
			}
			for s := 0; s <= n; s++ {
				sizes = append(sizes, s)
				rec()
				sizes = sizes[:len(sizes)-1]
			}
		}
		rec()
		ms := mapFamily(6)[0]
		for first := 0; first < len(ms.Roots); first++ {
			for second := 0; second < len(ms.Roots); second++ {
				for size := 0; size <= len(ms.Roots); size++ {
					first, second, size := first, second, size
					p := &poller{maps: []liar.Alt{{Resp: ms.MapHead(first)}, {Resp: ms.MapHead(second)}, {Resp: &pb.MapTreeHashResponse{}}}}
					p.maps = p.maps[:2]
					jobs = append(jobs, &job{p: p, what: fmt.Sprintf("waiting for size %d of a map of sizes %d and then %d", size, first, second), run: func(s *poller) answer {
						m, err := world.Map(s, "m").BlockUntilSize(ctx, int64(size))
						return answer{h: m.GetMutationLog(), m: m, err: err}
					}, ok: func(j *job) string {
						want := first
						if first < size {
							want = second
						}
						switch {
						case want < size && j.got.err == nil:
							return "no error when the server failed"
						case want >= size && (j.got.err != nil || !proto.Equal(j.got.m, ms.MapHead(want))):
							return fmt.Sprintf("not the head of size %d", want)
						}
						return ""
					}})
				}
			}
		}
		wait(x, jobs)
	})
	c.ExploreSerial("waiting, lies", func(x *mck.X) {
		u := x.Choose(2, "universe of the heads")
		var jobs []*job
		h := fs[u].Head(tLog, n-x.Choose(2, "size"))
		menu := menuOf(fs, true)
		hreq := &pb.LogTreeHashRequest{Log: &pb.LogRef{LogType: tLog}}
		heads := append([]liar.Alt{{What: "itself", Resp: h}}, menu("", hreq, liar.Alt{Resp: h})...)
		for leaf := 0; leaf <= n; leaf++ {
			input := []byte("entry in no log")
			if leaf < n {
				input = fs[0].Logs[tLog][leaf].LeafInput
			}
			lh := ref.Leaf(input)
			for hi, hd := range heads {
				if hd.Resp == nil {
					continue
				}
				size := hd.Resp.(*pb.LogTreeHashResponse).TreeSize
				preq := &pb.LogInclusionProofRequest{Log: &pb.LogRef{LogType: tLog}, TreeSize: size, MtlHash: lh}
				base := liar.Honest(fs[0], preq)
				if base.Err != nil && leaf < n && size > 0 && int(size) <= fs[u].N(tLog) {
					// of another entry
					base = liar.Honest(fs[u], &pb.LogInclusionProofRequest{Log: preq.Log, TreeSize: size})
				}
				proofs := append([]liar.Alt{base}, menu("", preq, base)...)
				if hi > 0 && c.Quick() && len(proofs) > 12 {
					proofs = append(proofs[:8:8], menuOf(fs, false)("", preq, base)...)
				}
				for _, pr := range proofs {
					hd, pr := hd, pr
					p := &poller{heads: []liar.Alt{hd}, proof: func(*pb.LogInclusionProofRequest) liar.Alt { return pr }}
					jobs = append(jobs, &job{p: p, what: fmt.Sprintf("waiting for entry %d: head %s (%s), proof %s", leaf, head(hd.Resp.(*pb.LogTreeHashResponse)), hd.What, pr.What), run: present(lh, len(jobs)%2, input), ok: func(j *job) string {
						if j.got.err != nil {
							return ""
						}
						if !proto.Equal(j.got.h, hd.Resp) {
							return "not the head that the server gave"
						}
						if fs.known(tLog, j.got.h) {
							if !fs.contains(tLog, j.got.h, lh, -1) {
								return "a head without the entry was returned"
							}
							return ""
						}
						if p.last == nil {
							return "a head was returned without a proof"
						}
						if p.last.LeafIndex < 0 || p.last.LeafIndex >= size {
							return "a head was returned with a proof for an impossible index"
						}
						root, ok := ref.RootFromInclusion(lh, int(p.last.LeafIndex), int(size), p.last.AuditPath)
						if !ok || !bytes.Equal(root, j.got.h.RootHash) || p.last.TreeSize != size {
							return "a head was returned without a proof for it"
						}
						return ""
					}})
				}
			}
		}
		wait(x, jobs)
		c.Sample("waiting", "%d lies at once", len(jobs))
	})
}
