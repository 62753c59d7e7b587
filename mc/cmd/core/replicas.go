package main

import (
	"context"
	"fmt"

	"google.golang.org/protobuf/proto"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/liar"
	"verifmc/mck"
	"verifmc/world"
)

// replicated is a map with a replica of its storage for each size that it has
// had.
type replicated struct {
	*mapRun
	db    *world.Store
	snaps []world.Service
}

func newReplicated(name string) *replicated {
	db := &world.Store{}
	r := &replicated{mapRun: newMapRun(world.On(db, policy.Open), name), db: db}
	r.keep()
	return r
}

// keep makes a replica of the present state.
func (r *replicated) keep() { r.snaps = append(r.snaps, world.On(r.db.Clone(), policy.Open)) }

// lagging answers each request from any of the replicas.
func (r *replicated) lagging(x *mck.X) *liar.Server {
	s := &liar.Server{Base: func(_ string, req proto.Message) liar.Alt {
		type answer struct {
			m   proto.Message
			err error
			of  int
		}
		var as []answer
		seen := map[string]bool{}
		for i := len(r.snaps) - 1; i >= 0; i-- {
			m, err := world.Call(r.snaps[i], req)
			k := fmt.Sprint(err != nil, world.Text(m))
			if !seen[k] {
				seen[k] = true
				as = append(as, answer{m, err, i})
			}
		}
		a := as[x.Choose(len(as), "replica")]
		x.Logf("%T %s answered by the replica of size %d: %s %v", req, world.Text(req), a.of, world.Text(a.m), a.err)
		return liar.Alt{What: "a replica", Resp: a.m, Err: a.err}
	}}
	s.Ready()
	return s
}

// statesFromReplicas obtains verified states while requests are answered by
// replicas that may be behind.
func statesFromReplicas(c *mck.C) {
	c.Explore("states from replicas that are behind", func(x *mck.X) {
		n := x.Range(1, c.Pick(5, 7), "size")
		r := newReplicated("m")
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 2:
				r.do(x, "delete", []byte("absent"), nil, nil)
			default:
				r.do(x, "set", []byte(fmt.Sprint("k", i%2)), world.Leaf(fmt.Sprint(i), ""), nil)
			}
			r.keep()
		}
		p := x.Range(0, n, "previous")
		var prev *verifiable.MapTreeState
		if p > 0 {
			// of when the map had some size
			at := x.Range(p, n, "obtained at")
			var err error
			prev, err = world.Map(r.snaps[at], "m").VerifiedMapState(ctx, nil, int64(p))
			x.Assert(err == nil, "state %d at size %d: %v", p, at, err)
		}
		m := world.Map(r.lagging(x), "m")
		k := x.Range(-1, n, "wanted")
		if k < 0 {
			st, err := m.VerifiedLatestMapState(ctx, prev)
			if err == nil {
				x.Assert(st != nil || prev == nil, "the latest state after that of size %d is none", p)
				x.Assert(st == nil || st.TreeSize() >= int64(p), "the latest state goes back from %d to %d", p, sizeOf(st))
				if st != nil {
					r.sound(x, st, int(st.TreeSize()), fmt.Sprint("latest after ", p))
				}
			}
			x.C.State("latest", n, p, sizeOf(st), err == nil)
		} else {
			st, err := m.VerifiedMapState(ctx, prev, int64(k))
			if err == nil {
				x.Assert(st != nil || prev == nil && k == 0, "the state of size %d after that of size %d is none", k, p)
				if st != nil {
					want := k
					if k == 0 {
						want = int(st.TreeSize())
					}
					r.sound(x, st, want, fmt.Sprint("after ", p))
				}
			}
			x.C.State("state", n, p, k, sizeOf(st), err == nil)
		}
		x.C.Transition(1)
		x.C.Trace(1)
	})
	// the same for the heads of a log
	c.Explore("log heads from replicas that are behind", func(x *mck.X) {
		n := x.Range(1, c.Pick(6, 9), "size")
		r := newReplicated("m")
		for i := 0; i < n; i++ {
			r.do(x, "set", []byte("k"), world.Leaf(fmt.Sprint(i), ""), nil)
			r.keep()
		}
		of := func(m *verifiable.Map, t int) *verifiable.Log {
			if t == 0 {
				return m.MutationLog()
			}
			return m.TreeHeadLog()
		}
		t := x.Choose(2, "log")
		truth := func(k int) *pb.LogTreeHashResponse {
			h, err := of(r.m, t).TreeHead(ctx, int64(k))
			x.Assert(err == nil, "head %d: %v", k, err)
			return h
		}
		p := x.Range(0, n, "previous")
		var prev *pb.LogTreeHashResponse
		if p > 0 {
			prev = truth(p)
		}
		l := of(world.Map(r.lagging(x), "m"), t)
		k := x.Range(-1, n, "wanted")
		var h *pb.LogTreeHashResponse
		var err error
		if k < 0 {
			h, err = l.VerifiedLatestTreeHead(ctx, prev)
			x.Assert(err != nil || h.TreeSize >= int64(p), "the latest head goes back from %d to %v", p, h)
		} else {
			h, err = l.VerifiedTreeHead(ctx, prev, int64(k))
			x.Assert(err != nil || k == 0 || h.TreeSize == int64(k), "head %d is %v", k, h)
		}
		if err == nil && h.TreeSize > 0 {
			x.Assert(proto.Equal(h, truth(int(h.TreeSize))), "head %v is not %v", h, truth(int(h.TreeSize)))
		}
		x.C.State("head", n, p, k, h.GetTreeSize(), err == nil)
		x.C.Transition(1)
		x.C.Trace(1)
	})
}

// auditsFromReplicas audits while requests are answered by replicas that may
// be behind, or the map grows.
func auditsFromReplicas(c *mck.C) {
	for _, u := range universes(c)[:c.Pick(1, 3)] {
		u := u
		c.Explore("audits by replicas that are behind, "+u.name, func(x *mck.X) {
			r := newReplicated("m")
			n := x.Range(1, 3, "size")
			for i := 0; i < n; i++ {
				mutationOp(x, r.mapRun, u.mutate[:2], false)
				r.keep()
			}
			h := x.Range(1, n, "audited")
			st, err := r.m.VerifiedMapState(ctx, nil, int64(h))
			x.Assert(err == nil, "state %d: %v", h, err)
			if x.Bool("head of the time") {
				th, err := r.m.TreeHeadLog().TreeHead(ctx, int64(h))
				x.Assert(err == nil, "tree head log head %d: %v", h, err)
				st = &verifiable.MapTreeState{MapTreeHead: st.MapTreeHead, TreeHeadLogTreeHead: th}
			}
			var calls []auditCall
			var values int
			err = world.Map(r.lagging(x), "m").VerifyMap(ctx, nil, st, func(context.Context, *pb.LeafData) error {
				values++
				return nil
			}, func(_ context.Context, idx int64, key []byte, v *pb.LeafData) error {
				calls = append(calls, auditCall{idx, append([]byte{}, key...), v})
				return nil
			})
			wc, _ := r.effective(n)
			x.Assert(len(calls) <= len(wc) && sameCalls(calls, wc[:len(calls)]), "an audit of size %d of %d reported %s, effective are %s", h, n, strCalls(calls), strCalls(wc))
			if err == nil {
				need, nv := r.effective(h)
				x.Assert(len(calls) >= len(need) && values >= len(nv), "a successful audit to size %d of %d reported %s and %d values, effective are %s", h, n, strCalls(calls), values, strCalls(wc))
			}
			x.C.State("replica audit", n, h, strCalls(calls), err == nil)
			x.C.Transition(1)
			x.C.Trace(1)
		})
	}
}

func sizeOf(st *verifiable.MapTreeState) int64 {
	if st == nil {
		return -1
	}
	return st.TreeSize()
}
