package main

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// remembering keeps the last mutation queued.
type remembering struct {
	to   verifiable.MutatorService
	ns   []byte
	last *pb.Mutation
}

func (r *remembering) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	r.ns = append([]byte{}, ns...)
	r.last = proto.Clone(mut).(*pb.Mutation)
	return r.to.QueueMutation(ctx, ns, mut)
}

// s03History is a history of the log and the map "a".
type s03History struct {
	name string
	do   func(s world.Service)
}

func logHistory(n int) s03History {
	return s03History{fmt.Sprint("log of ", n), func(s world.Service) {
		for i := 0; i < n; i++ {
			_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct0, Name: "a"}, Value: world.Leaf(fmt.Sprint("e", i), "x")})
			must(err)
		}
	}}
}

// s03Keys: two share 9 bits, a third one 3.
var s03Keys = [][]byte{ref.Base, ref.Ladder[9], ref.Ladder[3]}

func mapMut(act string, key int, val string, prev []byte) *pb.MapMutation {
	m := &pb.MapMutation{Action: act, Key: s03Keys[key], PreviousLeafHash: prev}
	if act != "delete" {
		m.Value = world.Leaf(val, "x"+val)
	}
	return m
}

var s03Muts = []*pb.MapMutation{
	mapMut("set", 0, "a", nil), mapMut("set", 0, "b", nil), mapMut("set", 1, "a", nil), mapMut("set", 2, "c", nil),
	mapMut("delete", 0, "", nil), mapMut("delete", 1, "", nil),
	mapMut("update", 0, "u", ref.Leaf([]byte("a"))), mapMut("update", 1, "u", ref.Leaf(nil)),
}

func mapHistory(muts ...int) s03History {
	return s03History{fmt.Sprint("map of ", muts), func(s world.Service) {
		for _, i := range muts {
			_, err := s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acct0, Name: "a"}, Mutation: proto.Clone(s03Muts[i]).(*pb.MapMutation)})
			must(err)
		}
	}}
}

func s03Histories(depth, logs int) (rv []s03History) {
	for n := 0; n <= logs; n++ {
		rv = append(rv, logHistory(n))
	}
	var rec func(pre []int)
	rec = func(pre []int) {
		if len(pre) > 0 {
			rv = append(rv, mapHistory(append([]int{}, pre...)...))
		}
		if len(pre) < depth {
			for i := range s03Muts {
				rec(append(append([]int{}, pre...), i))
			}
		}
	}
	rec(nil)
	return rv
}

// s03Requests are the requests tried after a history.
func s03Requests(logN, mapN int64) (rv []proto.Message) {
	for _, lt := range []pb.LogType{ltLog, ltMut, ltHead} {
		n := mapN
		if lt == ltLog {
			n = logN
		}
		l := &pb.LogRef{Account: acct0, Name: "a", LogType: lt}
		if lt != ltLog && mapN == 0 {
			continue
		}
		for sz := int64(0); sz <= n; sz++ {
			rv = append(rv, &pb.LogTreeHashRequest{Log: l, TreeSize: sz})
			for m := int64(0); m < n; m++ {
				rv = append(rv, &pb.LogInclusionProofRequest{Log: l, TreeSize: sz, LeafIndex: m})
				rv = append(rv, &pb.LogInclusionProofRequest{Log: l, TreeSize: sz, MtlHash: ref.Leaf([]byte(fmt.Sprint("e", m)))})
				rv = append(rv, &pb.LogConsistencyProofRequest{Log: l, TreeSize: sz, FromSize: m})
				rv = append(rv, &pb.LogFetchEntriesRequest{Log: l, First: m, Last: sz})
			}
		}
	}
	m := &pb.MapRef{Account: acct0, Name: "a"}
	for sz := int64(0); sz <= mapN; sz++ {
		rv = append(rv, &pb.MapTreeHashRequest{Map: m, TreeSize: sz})
		for _, k := range append([][]byte{[]byte("absent")}, s03Keys...) {
			rv = append(rv, &pb.MapGetValueRequest{Map: m, Key: k, TreeSize: sz})
		}
	}
	for _, in := range []string{"e0", "new", ""} {
		rv = append(rv, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct0, Name: "a"}, Value: world.Leaf(in, "x")})
	}
	for _, mu := range s03Muts {
		rv = append(rv, &pb.MapSetValueRequest{Map: m, Mutation: mu})
	}
	return rv
}

var s03Errors = []error{
	errors.New("the disk is on fire"),
	status.Error(codes.Unavailable, "no storage today"),
	context.DeadlineExceeded,
	verifiable.ErrNotFound,
}

func init() {
	mck.Register(mck.Check{
		ID:    "S03",
		Level: "fault_enumeration",
		Rule:  "when any one storage operation of a request fails, the request is answered with an error and nothing stored changes; retrying stores exactly what one undisturbed application of the same mutation would have, and reads answer as before",
		Assumptions: []string{
			"the storage is transactional (D01 checks the back ends); on one that isn't, nothing else is done between a failed mutation and its retry",
			"mutations are applied by the synchronous mutator; the batch mutator's faults are B02's",
			"one failure per request",
		},
		Budget: 120 * time.Second,
		Run:    runS03,
	})
}

func runS03(c *mck.C) {
	hist := s03Histories(c.Pick(3, 4), c.Pick(9, 17))
	var tolerated atomic.Int64
	c.Explore("faults", func(x *mck.X) {
		h := hist[x.Choose(len(hist), "history")]
		base := &world.Store{}
		h.do(world.On(base, policy.Open))
		before := base.Dump()
		open := world.On(base, policy.Open)
		lh, err := open.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: acct0, Name: "a"}})
		must(err)
		mh, err := open.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: acct0, Name: "a"}})
		must(err)
		n := 0
		for _, req := range s03Requests(lh.TreeSize, mh.GetMutationLog().GetTreeSize()) {
			write := world.IsWrite(req)
			db := base.Clone()
			inst := &instant.Mutator{Writer: db}
			mem := &remembering{to: inst}
			svc, err := (&verifiable.Service{AccessPolicy: policy.Open, Reader: db, Mutator: mem}).Create()
			must(err)
			// without faults
			want, wantErr := safely(x, svc, req)
			if write {
				x.Assert(wantErr == nil, "%s: %T{%.100s} without faults: %v", h.name, req, world.Text(req), wantErr)
			}
			ops := db.Ops
			for at := 1; at <= ops; at++ {
				for ei, ferr := range s03Errors {
					if ei > 1 && x.C.Quick() && at > 2 && at < ops-1 {
						continue
					}
					if write {
						db = base.Clone()
						inst.Writer = db
						svc, err = (&verifiable.Service{AccessPolicy: policy.Open, Reader: db, Mutator: mem}).Create()
						must(err)
					}
					db.Ops = 0
					what := ""
					db.Fault = func(op string) error {
						if db.Ops == at {
							what = op
							return ferr
						}
						return nil
					}
					resp, err := safely(x, svc, req)
					db.Fault = nil
					n++
					x.Assert(what != "", "%s: %T{%.100s} made %d storage operations, then fewer than %d", h.name, req, world.Text(req), ops, at)
					if !write {
						if err == nil {
							tolerated.Add(1)
						}
						x.Assert(err != nil || world.Equal(resp, want) && wantErr == nil, "%s: %T{%.100s} was answered %.100s, not %.100s (%v), when storage operation %d of %d (%s) failed with %q", h.name, req, world.Text(req), world.Text(resp), world.Text(want), wantErr, at, ops, what, ferr)
						continue
					}
					stored := func() string {
						clean := base.Clone()
						must((&instant.Mutator{Writer: clean}).QueueMutation(ctx, mem.ns, mem.last))
						return clean.Dump()
					}
					if err == nil { // survived the failure: then all of it must be there
						x.Assert(db.Dump() == stored(), "%s: %T{%.100s} was acknowledged although storage operation %d of %d (%s) failed with %q, and its effect is not there", h.name, req, world.Text(req), at, ops, what, ferr)
						continue
					}
					x.Assert(db.Version == 0 && db.Dump() == before, "%s: %T{%.100s} failed with %v (storage operation %d of %d, %s, failed) but changed what is stored", h.name, req, world.Text(req), err, at, ops, what)
					// the retry
					_, err = safely(x, svc, req)
					x.Assert(err == nil, "%s: %T{%.100s} fails when retried after storage operation %d of %d (%s) failed: %v", h.name, req, world.Text(req), at, ops, what, err)
					x.Assert(stored() == db.Dump(), "%s: %T{%.100s} retried after storage operation %d of %d (%s) failed does not store what it stores otherwise", h.name, req, world.Text(req), at, ops, what)
				}
			}
			if !write {
				x.Assert(db.Version == 0 && db.Dump() == before, "%s: %T{%.100s}, a read, changed what is stored", h.name, req, world.Text(req))
				got, gotErr := safely(x, svc, req)
				x.Assert(world.Equal(got, want) && fmt.Sprint(gotErr) == fmt.Sprint(wantErr), "%s: after failures %T{%.100s} answers %.200s %v, before %.200s %v", h.name, req, world.Text(req), world.Text(got), gotErr, world.Text(want), wantErr)
			}
			x.C.Eval(true, h.name, fmt.Sprintf("%T", req), ops)
		}
		x.C.Transition(n)
		x.C.Trace(n)
		x.C.State(h.name)
		x.C.Sample("history", "%s: %d faults", h.name, n)
	})
	c.Note("reads_correct_despite_failure", tolerated.Load())
	rough := s03Histories(c.Pick(2, 3), c.Pick(9, 17))
	c.Explore("rough", func(x *mck.X) { roughFaults(x, rough[x.Choose(len(rough), "history")]) })
}

// roughFaults: on a store without transactions a failed mutation leaves what it
// wrote. It must not show, and the same mutation, tried again, must store exactly
// what it stores otherwise.
func roughFaults(x *mck.X, h s03History) {
	base := &world.Store{}
	h.do(world.On(base, policy.Open))
	open := world.On(base, policy.Open)
	lh, err := open.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: acct0, Name: "a"}})
	must(err)
	mh, err := open.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: acct0, Name: "a"}})
	must(err)
	var reads, writes []proto.Message
	var want []string
	for _, req := range s03Requests(lh.TreeSize, mh.GetMutationLog().GetTreeSize()) {
		if world.IsWrite(req) {
			writes = append(writes, req)
			continue
		}
		reads = append(reads, req)
		resp, err := safely(x, open, req)
		want = append(want, fmt.Sprint(world.Text(resp), err))
	}
	n := 0
	for _, req := range writes {
		for at := 1; ; at++ {
			db := base.Clone()
			db.Rough = true
			inst := &instant.Mutator{Writer: db}
			mem := &remembering{to: inst}
			svc, err := (&verifiable.Service{AccessPolicy: policy.Open, Reader: db, Mutator: mem}).Create()
			must(err)
			what := ""
			db.Fault = func(op string) error {
				if db.Ops == at {
					what = op
					return s03Errors[0]
				}
				return nil
			}
			_, err = safely(x, svc, req)
			db.Fault = nil
			if what == "" {
				break
			}
			n++
			if err != nil && what != "commit" {
				for i, r := range reads {
					if x.C.Quick() && i%7 != at%7 {
						continue
					}
					resp, err := safely(x, svc, r)
					got := fmt.Sprint(world.Text(resp), err)
					x.Assert(got == want[i], "%s, store without transactions: %T{%.100s} failed at storage operation %d (%s), after which %T{%.100s} answers %.200s, before %.200s", h.name, req, world.Text(req), at, what, r, world.Text(r), got, want[i])
				}
			}
			if err != nil {
				must(inst.QueueMutation(ctx, mem.ns, mem.last))
			}
			clean := base.Clone()
			must((&instant.Mutator{Writer: clean}).QueueMutation(ctx, mem.ns, mem.last))
			x.Assert(db.Dump() == clean.Dump(), "%s, store without transactions: %T{%.100s}, tried again after storage operation %d (%s) failed, does not store what it stores otherwise", h.name, req, world.Text(req), at, what)
		}
	}
	x.C.Transition(n)
	x.C.Trace(n)
	x.C.State("rough", h.name)
}
