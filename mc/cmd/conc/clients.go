package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/rig"
	"verifmc/vs"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "B03", Run: runB03, Budget: 100 * time.Second,
		Rule:        "every schedule with at most 1 or 2 (thorough: 3) preemptions, at every lock operation and between all operations, of 2 or 3 clients with 1 or 2 operations each from a menu of additions, map mutations and reads of heads, entries, proofs and values, or one verifying client against a writer; each execution is compared with all sequential orders",
		Assumptions: []string{"sequential behaviour is what L01 to M06 check"}})
}

// seen is a read, its answer and when it happened.
type seen struct {
	look     look
	got      string
	from, to int
}

var concLooks = [][]look{
	{
		looks[0], looks[1],
		{"inclusion by hash", func(s world.Service) string {
			p, err := s.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: logX(), MtlHash: merkle.LeafHash([]byte("b"))})
			return fmt.Sprintf("%d %d %x %v", p.GetLeafIndex(), p.GetTreeSize(), p.GetAuditPath(), err)
		}},
		{"inclusion of the first", func(s world.Service) string {
			p, err := s.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: logX(), LeafIndex: 0})
			return fmt.Sprintf("%d %d %x %v", p.GetLeafIndex(), p.GetTreeSize(), p.GetAuditPath(), err)
		}},
		{"consistency with the first", func(s world.Service) string {
			p, err := s.LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: logX(), FromSize: 1})
			return fmt.Sprintf("%d %d %x %v", p.GetFromSize(), p.GetTreeSize(), p.GetAuditPath(), err)
		}},
	},
	{
		looks[2], looks[3], looks[4], looks[5],
	},
}

func logX() *pb.LogRef {
	return &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "X", LogType: pb.LogType_STRUCT_TYPE_LOG}
}

var writes = [][]rig.Act{
	{rig.AddAct("X", "a"), rig.AddAct("X", "b")},
	{rig.Menu[2], rig.Menu[4], rig.Menu[5]},
}

// clientOp is one step of a client.
type clientOp struct {
	act  *rig.Act
	look *look
	high func(s world.Service) error
}

func instantService(db world.Storage) (world.Service, *rig.Recorder) {
	r := &rig.Recorder{Inner: &instant.Mutator{Writer: db}}
	s, err := (&verifiable.Service{AccessPolicy: policy.Open, Reader: db, Mutator: r}).Create()
	if err != nil {
		panic(err)
	}
	return s, r
}

// explained says whether some order of the mutations, in accordance with when
// they happened, explains what was read and what is there at the end.
func explained(list []*rig.Queued, reads []*seen, final string) bool {
	var rec func(done []*rig.Queued) bool
	rec = func(done []*rig.Queued) bool {
		if len(done) == len(list) {
			return explains(done, reads, final)
		}
	next:
		for _, q := range list {
			for _, d := range done {
				if d == q {
					continue next
				}
			}
			for _, o := range list {
				in := false
				for _, d := range done {
					in = in || d == o
				}
				if !in && o != q && o.To < q.From {
					continue next
				}
			}
			if rec(append(append([]*rig.Queued{}, done...), q)) {
				return true
			}
		}
		return false
	}
	return rec(nil)
}

func explains(order []*rig.Queued, reads []*seen, final string) bool {
	if rig.Reference(order) != final {
		return false
	}
	states := make([]world.Service, len(order)+1)
	for i := range states {
		states[i] = rig.ReferenceService(order[:i])
	}
	// where each read can have happened, given the mutations
	may := make([][]int, len(reads))
	for i, r := range reads {
		for k := 0; k <= len(order); k++ {
			ok := true
			for j, q := range order {
				if q.To < r.from && j >= k || r.to < q.From && j < k {
					ok = false
				}
			}
			if ok && r.look.f(states[k]) == r.got {
				may[i] = append(may[i], k)
			}
		}
	}
	at := make([]int, len(reads))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(reads) {
			return true
		}
	next:
		for _, k := range may[i] {
			for j := 0; j < i; j++ {
				if reads[j].to < reads[i].from && at[j] > k || reads[i].to < reads[j].from && at[j] < k {
					continue next
				}
			}
			at[i] = k
			if rec(i + 1) {
				return true
			}
		}
		return false
	}
	return rec(0)
}

func runB03(c *mck.C) {
	shape := func(b rig.Backend, name string, shape []string, pre int) {
		c.Explore(b.Name+", "+name, func(x *mck.X) {
			k := x.Choose(2, "log or map")
			var clients [][]clientOp
			for i, sh := range shape {
				var ops []clientOp
				for _, w := range sh {
					switch w {
					case 'W':
						ops = append(ops, clientOp{act: &writes[k][x.Choose(len(writes[k]), "mutation")]})
					case 'R':
						ops = append(ops, clientOp{look: &concLooks[k][x.Choose(len(concLooks[k]), "read")]})
					case 'V':
						ops = append(ops, clientOp{high: verifying[k]})
					}
				}
				_ = i
				clients = append(clients, ops)
			}
			clientsRun(x, b, clients, pre)
		})
	}
	shape(rig.MemoryBackend, "two writers", []string{"W", "W"}, 3)
	shape(rig.MemoryBackend, "writer and reader", []string{"WW", "RR"}, c.Pick(1, 2))
	shape(rig.MemoryBackend, "two writers and a reader", []string{"W", "W", "R"}, c.Pick(1, 2))
	shape(rig.MemoryBackend, "writer and verifier", []string{"WW", "V"}, c.Pick(1, 2))
	shape(rig.BoltBackend, "two writers", []string{"W", "W"}, 2)
	shape(rig.BoltBackend, "writer and reader", []string{"W", "RR"}, 1)
	if !c.Quick() {
		shape(rig.MemoryBackend, "two writers and two reads", []string{"WW", "W", "RR"}, 1)
		shape(rig.MemoryBackend, "two verifiers", []string{"WW", "V", "V"}, 1)
		shape(rig.BoltBackend, "writer and verifier", []string{"WW", "V"}, 1)
		shape(rig.PostgresBackend(false), "writer and reader", []string{"WW", "RR"}, 1)
		shape(rig.PostgresBackend(true), "two writers", []string{"WW", "W"}, 1)
		shape(rig.BadgerBackend, "writer and reader", []string{"WW", "RR"}, 1)
	}
}

// verifying are clients that check everything the service says.
var verifying = []func(s world.Service) error{
	func(s world.Service) error {
		l := world.Log(s, "X")
		a, err := l.VerifiedLatestTreeHead(ctx, nil)
		if err != nil {
			return err
		}
		b, err := l.VerifiedLatestTreeHead(ctx, a)
		if err != nil {
			return err
		}
		if err := l.VerifyInclusion(ctx, b, merkle.LeafHash([]byte("first"))); err != nil {
			return err
		}
		n := int64(0)
		err = l.VerifyEntries(ctx, nil, b, func(_ context.Context, idx int64, e *pb.LeafData) error {
			if idx != n {
				return fmt.Errorf("entry %d instead of %d", idx, n)
			}
			n++
			return nil
		})
		if err == nil && n != b.TreeSize {
			return fmt.Errorf("%d of %d entries", n, b.TreeSize)
		}
		return err
	},
	func(s world.Service) error {
		m := world.Map(s, "M")
		a, err := m.VerifiedLatestMapState(ctx, nil)
		if err != nil {
			return err
		}
		b, err := m.VerifiedLatestMapState(ctx, a)
		if err != nil {
			return err
		}
		if _, err := m.VerifiedGet(ctx, []byte("k"), a); err != nil {
			return err
		}
		if _, err := m.VerifiedGet(ctx, []byte("k"), b); err != nil {
			return err
		}
		return m.VerifyMap(ctx, nil, b, nil, nil)
	},
}

func clientsRun(x *mck.X, b rig.Backend, clients [][]clientOp, pre int) {
	open, closeAll := b.Open(x)
	defer closeAll()
	var s []world.Service
	var recs []*rig.Recorder
	for range clients {
		v, r := instantService(open())
		if len(recs) > 0 {
			if strings.HasPrefix(b.Name, "postgres, a") {
				r.To = recs[0]
			} else {
				v, r = s[0], recs[0]
			}
		}
		s = append(s, v)
		recs = append(recs, r)
	}
	rec := recs[0]
	var reads []*seen
	var final string
	r := run(x, pre, func() {
		for _, a := range []rig.Act{rig.AddAct("X", "first"), rig.MapAct("set", "set", "k", "1", nil)} {
			if err := a.Do(s[0]); err != nil {
				panic(err)
			}
		}
		for _, q := range rec.List {
			q.From, q.To = -1, -1
		}
		var fs []func()
		for i, ops := range clients {
			for _, o := range ops {
				if o.look != nil {
					reads = append(reads, &seen{look: *o.look})
				}
			}
			mine := reads[len(reads)-countReads(ops):]
			s := s[i]
			fs = append(fs, func() {
				n := 0
				for _, o := range ops {
					switch {
					case o.act != nil:
						vs.Point(o.act.Name)
						if err := o.act.Do(s); err != nil {
							panic(fmt.Sprintf("%s: %v", o.act.Name, err))
						}
					case o.look != nil:
						rd := mine[n]
						n++
						vs.Point(o.look.name)
						rd.from = vs.Step()
						rd.got = o.look.f(s)
						rd.to = vs.Step()
					default:
						if err := o.high(s); err != nil {
							panic(fmt.Sprintf("verifying an honest service: %v", err))
						}
					}
				}
			})
		}
		group(fs...)
	})
	x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
	x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
	final = rig.Observe(s[0])
	var said []string
	for _, rd := range reads {
		said = append(said, fmt.Sprintf("%s [%d,%d]: %s", rd.look.name, rd.from, rd.to, rd.got))
	}
	x.Assert(explained(rec.List, reads, final), "no sequential order explains the reads\n%s\nof the mutations %v\nand finally\n%s", strings.Join(said, "\n"), rec.List, final)
	st := []string{final}
	for _, rd := range reads {
		st = append(st, rd.got)
	}
	x.C.State(strings.Join(st, "\n"))
	x.C.Trace(1)
	x.C.Sample(b.Name, "%v; %s", rec.List, strings.Join(said, "; "))
}

func countReads(ops []clientOp) (n int) {
	for _, o := range ops {
		if o.look != nil {
			n++
		}
	}
	return
}
