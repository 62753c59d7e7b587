package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/rig"
	"verifmc/vs"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "B04", Run: runB04, Budget: 100 * time.Second,
		Rule:        "waiting for each entry (present or not) or size of a log or map whose head a server shows at every sequence of up to 3 (thorough: 4) sizes, growing or lagging, each for 1, 2 or 30 (thorough: or 7) polls, and which then fails, in virtual time; and waiting for one's own or another's mutation while up to three clients write through the batch mutator (with every batch size and buffer size from a list) or the instant one, on every schedule with at most 1 (thorough: 2) preemptions or early timeouts",
		Assumptions: []string{"timers fire in the order of their deadlines", "the server proves the inclusion of what it has"}})
}

var errOver = errors.New("the server is gone")

// stage is a head that a server shows for a number of polls.
type stage struct{ size, polls int }

// staged is an honest server whose heads lag behind what it has.
type staged struct {
	world.Service
	stages []stage
	i, n   int
	polls  int
	shown  []int
}

func (s *staged) next() (int64, error) {
	s.polls++
	for s.i < len(s.stages) && s.n == s.stages[s.i].polls {
		s.i, s.n = s.i+1, 0
	}
	if s.i == len(s.stages) {
		return 0, errOver
	}
	s.n++
	if s.polls > 1000 {
		panic("a thousand polls")
	}
	return int64(s.stages[s.i].size), nil
}

func (s *staged) LogTreeHash(c context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	if r.TreeSize != 0 {
		return s.Service.LogTreeHash(c, r)
	}
	n, err := s.next()
	if err != nil {
		return nil, err
	}
	if n == 0 {
		return &pb.LogTreeHashResponse{}, nil
	}
	return s.Service.LogTreeHash(c, &pb.LogTreeHashRequest{Log: r.Log, TreeSize: n})
}

func (s *staged) MapTreeHash(c context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	if r.TreeSize != 0 {
		return s.Service.MapTreeHash(c, r)
	}
	n, err := s.next()
	if err != nil {
		return nil, err
	}
	if n == 0 {
		return world.On(&memory.TransientStorage{}, policy.Open).MapTreeHash(c, r)
	}
	return s.Service.MapTreeHash(c, &pb.MapTreeHashRequest{Map: r.Map, TreeSize: n})
}

func (s *staged) LogAddEntry(_ context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return &pb.LogAddEntryResponse{LeafHash: merkle.LeafHash(r.Value.LeafInput)}, nil
}

// first is the poll at which a size above leaf is shown, or -1.
func (s *staged) first(ok func(size int) bool) int {
	for _, st := range s.stages {
		if ok(st.size) {
			return st.size
		}
	}
	return -1
}

const waitSize = 4

func runB04(c *mck.C) {
	slowGrowth(c)
	writersAndWaiters(c)
}

// filled is a service with a log and a map of waitSize entries, and the
// leaf hashes of their mutation log.
func filled() (world.Service, []*pb.LeafData) {
	s := world.On(&memory.TransientStorage{}, policy.Open)
	for i := 0; i < waitSize; i++ {
		if err := rig.AddAct("X", fmt.Sprint("e", i)).Do(s); err != nil {
			panic("mck: " + err.Error())
		}
		if err := rig.MapAct("set", "set", "k", fmt.Sprint(i), nil).Do(s); err != nil {
			panic("mck: " + err.Error())
		}
	}
	r, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "M", LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG}})
	if err != nil {
		panic("mck: " + err.Error())
	}
	return s, r.Values
}

func slowGrowth(c *mck.C) {
	c.Explore("slow growth", func(x *mck.X) {
		honest, muts := filled()
		lengths := []int{1, 2, 30, 7}[:c.Pick(3, 4)]
		s := &staged{Service: honest}
		last := -1
		for i := 0; i < c.Pick(3, 4); i++ {
			// 0 ends the sequence
			k := x.Choose(waitSize+2, "size") - 1
			if k < 0 {
				break
			}
			if k == last {
				x.Prune()
			}
			last = k
			s.stages = append(s.stages, stage{k, lengths[x.Choose(len(lengths), "polls")]})
		}
		what := x.Choose(4, "waiting for")
		target := x.Choose(waitSize+1, "target")
		var got proto.Message
		var err error
		var want proto.Message
		size := -1
		x.Logf("sizes and polls %v, waiting %d for %d", s.stages, what, target)
		r := runTimed(x, 0, true, func() {
			switch what {
			case 0: // an entry
				var h *pb.LogTreeHashResponse
				h, err = world.Log(s, "X").BlockUntilPresent(ctx, merkle.LeafHash([]byte(fmt.Sprint("e", target))))
				got = h
			case 1: // one's own
				var p verifiable.LogUpdatePromise
				p, err = world.Log(s, "X").Add(ctx, &pb.LeafData{LeafInput: []byte(fmt.Sprint("e", target))})
				if err == nil {
					var h *pb.LogTreeHashResponse
					h, err = p.Wait(ctx)
					got = h
				}
			case 2: // a mutation
				lh := []byte("no hash")
				if target < waitSize {
					lh = merkle.LeafHash(muts[target].LeafInput)
				}
				var h *pb.LogTreeHashResponse
				h, err = world.Map(s, "M").MutationLog().BlockUntilPresent(ctx, lh)
				got = h
			case 3: // a size
				var h *pb.MapTreeHashResponse
				h, err = world.Map(s, "M").BlockUntilSize(ctx, int64(target))
				got = h
			}
		})
		x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
		x.Assert(r.Main, "never ends: %s", strings.Join(r.Blocked, "; "))
		switch what {
		case 0, 1, 2:
			size = s.first(func(n int) bool { return n > target })
			l := logX()
			if what == 2 {
				l.Name, l.LogType = "M", pb.LogType_STRUCT_TYPE_MUTATION_LOG
			}
			if size > 0 {
				h, e := honest.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l, TreeSize: int64(size)})
				if e != nil {
					panic("mck: " + e.Error())
				}
				want = h
			}
		case 3:
			size = s.first(func(n int) bool { return n >= target })
			if size == 0 {
				want = nil
			} else if size > 0 {
				h, e := honest.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "M"}, TreeSize: int64(size)})
				if e != nil {
					panic("mck: " + e.Error())
				}
				want = h
			}
		}
		c.State(fmt.Sprint(s.stages, what, target))
		c.Eval(size > 0, fmt.Sprint(what), fmt.Sprint(s.stages), fmt.Sprint(target))
		c.Trace(1)
		if size < 0 {
			x.Assert(err == errOver, "it is never there and the server ends with %q, but the result is %v, %v", errOver, got, err)
			return
		}
		x.Assert(err == nil, "it is there at size %d, but: %v", size, err)
		x.Assert(want == nil || proto.Equal(got, want), "the head of size %d shows it first, but the result is %v", size, got)
	})
}

func writersAndWaiters(c *mck.C) {
	type conf struct {
		size, buffer int // size -1: instant
	}
	confs := []conf{{-1, 0}, {0, 0}, {1, 1}, {2, 1}, {3, 0}, {100, 4}}
	// each client is a list of steps
	shapes := []string{"A", "AA", "AB", "S", "ST", "AS", "ASD", "PA", "QS", "ABP", "SUQ"}
	c.Explore("writers and waiters", func(x *mck.X) {
		cf := confs[x.Choose(len(confs), "mutator")]
		shape := shapes[x.Choose(len(shapes), "clients")]
		pre := c.Pick(1, 2)
		if len(shape) > 2 {
			pre--
		}
		db := &memory.TransientStorage{}
		var s world.Service
		type outcome struct {
			what string
			h    *pb.LogTreeHashResponse
			m    *pb.MapTreeHashResponse
			leaf []byte
			err  error
		}
		outs := make([]outcome, len(shape))
		r := runTimed(x, pre, true, func() {
			var rec *rig.Recorder
			if cf.size < 0 {
				s, rec = instantService(db)
			} else {
				s, rec = batchService(db, cf.size, cf.buffer)
			}
			_ = rec
			var fs []func()
			for i, w := range shape {
				o, i := &outs[i], i
				o.what = string(w)
				fs = append(fs, func() {
					l, m := world.Log(s, "X"), world.Map(s, "M")
					switch w {
					case 'A', 'B': // add, and wait for it
						var p verifiable.LogUpdatePromise
						p, o.err = l.Add(ctx, world.Leaf(string(w), "x"))
						if o.err == nil {
							o.leaf = p.LeafHash()
							o.h, o.err = p.Wait(ctx)
						}
					case 'P': // wait for another's entry
						o.leaf = merkle.LeafHash([]byte("A"))
						o.h, o.err = l.BlockUntilPresent(ctx, o.leaf)
					case 'S', 'T', 'U', 'D':
						var p verifiable.MapUpdatePromise
						k := []byte(fmt.Sprint("k", i))
						switch w {
						case 'U':
							p, o.err = m.Update(ctx, k, world.Leaf("v", "x"), merkle.LeafHash(nil))
						case 'D':
							p, o.err = m.Delete(ctx, k)
						default:
							p, o.err = m.Set(ctx, k, world.Leaf("v", "x"))
						}
						if o.err == nil {
							o.leaf = p.LeafHash()
							o.m, o.err = p.Wait(ctx)
						}
					case 'Q': // wait for a size
						o.m, o.err = m.BlockUntilSize(ctx, int64(len(shape)-1))
					}
				})
			}
			group(fs...)
			vs.Idle()
		})
		x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
		x.Assert(r.Main, "some wait never ends: %s", strings.Join(r.Blocked, "; "))
		var st []string
		for i, o := range outs {
			x.Assert(o.err == nil, "client %d (%s): %v", i+1, o.what, o.err)
			st = append(st, fmt.Sprint(o.what, o.h.GetTreeSize(), o.m.GetMutationLog().GetTreeSize()))
			if o.h != nil {
				now, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: logX(), TreeSize: o.h.TreeSize})
				x.Assert(err == nil && proto.Equal(now, o.h), "client %d (%s) waited and got %v, which was never the head: %v, %v", i+1, o.what, o.h, now, err)
				err = world.Log(s, "X").VerifyInclusion(ctx, o.h, o.leaf)
				x.Assert(err == nil, "client %d (%s) waited and got %v, which does not have the entry: %v", i+1, o.what, o.h, err)
				continue
			}
			x.Assert(o.m != nil, "client %d (%s) got nothing", i+1, o.what)
			mr := &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "M"}
			size := o.m.GetMutationLog().GetTreeSize()
			now, err := s.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: mr, TreeSize: size})
			x.Assert(err == nil && proto.Equal(now, o.m), "client %d (%s) waited and got %v, which was never the head: %v, %v", i+1, o.what, o.m, now, err)
			if o.what == "Q" {
				x.Assert(size >= int64(len(shape)-1), "client %d waited for size %d and got %d", i+1, len(shape)-1, size)
				continue
			}
			err = world.Map(s, "M").MutationLog().VerifyInclusion(ctx, o.m.MutationLog, o.leaf)
			x.Assert(err == nil, "client %d (%s) waited and got %v, which does not have the mutation: %v", i+1, o.what, o.m, err)
			k := []byte(fmt.Sprint("k", i))
			v, err := s.MapGetValue(ctx, &pb.MapGetValueRequest{Map: mr, Key: k, TreeSize: size})
			x.Assert(err == nil && verifiable.VerifyMapInclusionProof(v, k, o.m) == nil, "client %d (%s): the value at the head it got: %v", i+1, o.what, err)
			want := "v"
			if o.what == "D" {
				want = ""
			}
			x.Assert(string(v.GetValue().GetLeafInput()) == want, "client %d (%s): the value at the head it got is %q", i+1, o.what, v.GetValue().GetLeafInput())
		}
		c.State(fmt.Sprint(cf, shape, st))
		c.Trace(1)
		c.Eval(true, shape, fmt.Sprint(cf))
		c.Sample("writers and waiters", "%v %v", cf, st)
	})
}
