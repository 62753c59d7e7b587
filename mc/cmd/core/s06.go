package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// s06Sizes are the sizes of the logs and maps in each account.
var s06Sizes = map[string]int{"a": 7, "b": 4, "empty": 0}

func s06Keys() [][]byte { return [][]byte{ref.Base, ref.Ladder[1], ref.Ladder[9], []byte("k")} }

// s06Fill fills the logs and maps of two accounts.
func s06Fill(s world.Service) {
	for _, a := range []string{"0", "1"} {
		acc := &pb.AccountRef{Id: a}
		for _, name := range []string{"a", "b"} {
			for i := 0; i < s06Sizes[name]; i++ {
				v := world.Leaf(fmt.Sprint("e", i, a, name), fmt.Sprint("x", i, a, name))
				if i%2 == 0 {
					var err error
					v, err = verifiable.CreateJSONLeafData([]byte(fmt.Sprintf(`{"name":"n%d","dob":%q}`, i, a+name)))
					must(err)
				}
				_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: name}, Value: v})
				must(err)
				mut := &pb.MapMutation{Action: "set", Key: s06Keys()[i%3], Value: v}
				if i == 3 {
					mut = &pb.MapMutation{Action: "delete", Key: s06Keys()[1]}
				}
				_, err = s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: name}, Mutation: mut})
				must(err)
			}
		}
	}
}

// s06Reads are reads of every kind.
func s06Reads(accts, names []string) (rv []proto.Message) {
	for _, a := range accts {
		acc := &pb.AccountRef{Id: a, ApiKey: "k"}
		for _, name := range names {
			n := int64(s06Sizes[name])
			for _, t := range []pb.LogType{ltLog, ltMut, ltHead} {
				l := &pb.LogRef{Account: acc, Name: name, LogType: t}
				rv = append(rv, &pb.LogFetchEntriesRequest{Log: l}, &pb.LogFetchEntriesRequest{Log: l, First: 1, Last: 3},
					&pb.LogTreeHashRequest{Log: l}, &pb.LogTreeHashRequest{Log: l, TreeSize: 3},
					&pb.LogConsistencyProofRequest{Log: l, FromSize: 1}, &pb.LogConsistencyProofRequest{Log: l, FromSize: 3, TreeSize: n}, &pb.LogConsistencyProofRequest{Log: l, FromSize: 2, TreeSize: 3})
				for _, i := range []int64{0, n - 2, n - 1} {
					rv = append(rv, &pb.LogInclusionProofRequest{Log: l, LeafIndex: i})
				}
				rv = append(rv, &pb.LogInclusionProofRequest{Log: l, LeafIndex: 1, TreeSize: 3}, &pb.LogInclusionProofRequest{Log: l, MtlHash: ref.Leaf([]byte("e1" + a + name))})
			}
			m := &pb.MapRef{Account: acc, Name: name}
			for _, k := range s06Keys() {
				rv = append(rv, &pb.MapGetValueRequest{Map: m, Key: k}, &pb.MapGetValueRequest{Map: m, Key: k, TreeSize: 2})
			}
			rv = append(rv, &pb.MapTreeHashRequest{Map: m}, &pb.MapTreeHashRequest{Map: m, TreeSize: 3}, &pb.MapTreeHashRequest{Map: m, TreeSize: 1})
		}
	}
	return rv
}

// s06Writes are writes to the same objects.
func s06Writes(accts, names []string) (rv []proto.Message) {
	for _, a := range accts {
		acc := &pb.AccountRef{Id: a, ApiKey: "k"}
		for _, name := range names {
			m := &pb.MapRef{Account: acc, Name: name}
			rv = append(rv, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: name}, Value: world.Leaf("new", "new")},
				&pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: name}, Value: world.Leaf("e1"+a+name, "again")},
				&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: ref.Base, Value: world.Leaf("new", "new")}},
				&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "update", Key: ref.Ladder[9], Value: world.Leaf("new", "new"), PreviousLeafHash: ref.Leaf([]byte("other"))}},
				&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "delete", Key: ref.Base}})
		}
	}
	return rv
}

// scribble overwrites every byte in a message in place, and then every field,
// also those that are not set.
func scribble(m proto.Message) {
	if m == nil || !m.ProtoReflect().IsValid() {
		return
	}
	var in func(m protoreflect.Message)
	over := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	in = func(m protoreflect.Message) {
		m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case f.IsList() && f.Kind() == protoreflect.BytesKind:
				for i := 0; i < v.List().Len(); i++ {
					over(v.List().Get(i).Bytes())
				}
			case f.IsList() && f.Kind() == protoreflect.MessageKind:
				for i := 0; i < v.List().Len(); i++ {
					in(v.List().Get(i).Message())
				}
			case f.Kind() == protoreflect.BytesKind:
				over(v.Bytes())
			case f.Kind() == protoreflect.MessageKind && !f.IsMap():
				in(v.Message())
			}
			return true
		})
	}
	in(m.ProtoReflect())
	junk := []byte("scribbled")
	var fields func(m protoreflect.Message, depth int)
	fields = func(m protoreflect.Message, depth int) {
		fs := m.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			switch {
			case f.IsMap():
			case f.IsList() && f.Kind() == protoreflect.BytesKind:
				l := m.Mutable(f).List()
				for k := 0; k < l.Len(); k++ {
					l.Set(k, protoreflect.ValueOfBytes(junk))
				}
				for k := 0; k < 3; k++ {
					l.Append(protoreflect.ValueOfBytes(junk))
				}
			case f.IsList() && f.Kind() == protoreflect.MessageKind:
				l := m.Mutable(f).List()
				for k := 0; k < l.Len(); k++ {
					if depth < 3 {
						fields(l.Get(k).Message(), depth+1)
					}
				}
				l.Append(l.NewElement())
				for k := 0; k < l.Len(); k++ {
					l.Set(k, l.NewElement())
				}
			case f.IsList():
			case f.Kind() == protoreflect.BytesKind:
				m.Set(f, protoreflect.ValueOfBytes(junk))
			case f.Kind() == protoreflect.StringKind:
				m.Set(f, protoreflect.ValueOfString("scribbled"))
			case f.Kind() == protoreflect.Int64Kind:
				m.Set(f, protoreflect.ValueOfInt64(m.Get(f).Int()+1))
			case f.Kind() == protoreflect.EnumKind:
				m.Set(f, protoreflect.ValueOfEnum(m.Get(f).Enum()+1))
			case f.Kind() == protoreflect.MessageKind && depth < 3:
				fields(m.Mutable(f).Message(), depth+1)
			}
		}
	}
	fields(m.ProtoReflect(), 0)
}

type s06Answer struct {
	resp proto.Message
	err  error
}

func (a s06Answer) same(b s06Answer) bool {
	if a.err != nil || b.err != nil {
		return a.err != nil && b.err != nil && world.Code(a.err) == world.Code(b.err)
	}
	return world.Equal(a.resp, b.resp)
}

func (a s06Answer) String() string { return fmt.Sprintf("%.600s %v", world.Text(a.resp), a.err) }

func s06Ask(s world.Service, req proto.Message) s06Answer {
	resp, err := world.Call(s, req)
	return s06Answer{resp, err}
}

func init() {
	mck.Register(mck.Check{
		ID:   "S06",
		Rule: "every read is answered as when it is the only one, whatever was asked before and whatever is asked or written during it, at each of its calls to policy and storage; an answer given stays as it is; what callers do with their requests and answers afterwards changes nothing",
		Assumptions: []string{
			"storage readers see one committed state; that the backends provide it is D01's and D04's",
		},
		Budget: 150 * time.Second,
		Run:    runS06,
	})
}

func runS06(c *mck.C) {
	policies := []verifiable.AuthorizationOracle{
		policy.Open,
		&policy.Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: []*pb.AccessPolicy{{ApiKey: "k", NameMatch: "a", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"name"}}, {ApiKey: "*", NameMatch: "?", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"*"}}}},
			{Id: "1", Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_MAP_GET_VALUE}, AllowedFields: []string{"dob"}}}}}},
	}
	base := &world.Store{}
	s06Fill(world.On(base, policy.Open))
	accts, names := []string{"0", "1"}, []string{"a", "b", "empty"}
	reads := s06Reads(accts, names)
	on := func(db world.Storage, p int) world.Service { return world.On(db, policies[p]) }
	alone := make([][]s06Answer, len(policies))
	for p := range policies {
		for _, r := range reads {
			alone[p] = append(alone[p], s06Ask(on(base.Clone(), p), r))
		}
	}
	text := func(i int) string { return fmt.Sprintf("%T{%s}", reads[i], world.Text(reads[i])) }
	// One after the other; the first answer is looked at again at the end.
	c.Explore("two reads", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		i := x.Choose(len(reads), "first")
		for j := range reads {
			s := on(base, p)
			first := s06Ask(s, reads[i])
			second := s06Ask(s, reads[j])
			x.Assert(second.same(alone[p][j]), "%s is answered %v after %s, and %v otherwise", text(j), second, text(i), alone[p][j])
			x.Assert(first.same(alone[p][i]), "the answer to %s, %v, became %v after %s", text(i), alone[p][i], first, text(j))
		}
		x.C.Transition(2 * len(reads))
		x.C.State("two", p, i)
		x.C.Trace(len(reads))
		x.C.Eval(alone[p][i].err == nil, "two", p, i)
	})
	// All, one after the other, on one service; all answers are looked at again at the end.
	c.Explore("all reads", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		kind := x.Choose(4, "storage")
		step := []int{1, len(reads) - 1, 7, 89}[x.Choose(4, "order")]
		for len(reads)%step == 0 && step > 1 {
			step++
		}
		db := s06Backend(x, kind)
		must(base.CopyTo(db))
		s := on(db, p)
		got := map[int]s06Answer{}
		for round := 0; round < 2; round++ {
			for n := range reads {
				i := n * step % len(reads)
				a := s06Ask(s, reads[i])
				x.Assert(a.same(alone[p][i]), "%s is answered %v among others, and %v otherwise", text(i), a, alone[p][i])
				got[i] = a
			}
		}
		for i, a := range got {
			x.Assert(a.same(alone[p][i]), "the answer to %s, %v, became %v after others", text(i), alone[p][i], a)
		}
		x.C.Transition(2 * len(reads))
		x.C.State("all", p, kind, step)
		x.C.Trace(1)
	})
	// What callers do with an answer, or with a request, is their own business.
	c.Explore("reused memory", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		kind := x.Choose(4, "storage")
		db := s06Backend(x, kind)
		s := world.On(db, policy.Open)
		// the same history, in requests that are overwritten
		s06Fill(&scribbler{Service: s})
		s = on(db, p)
		mine := make([]s06Answer, len(reads))
		for i := range reads {
			a := s06Ask(s, reads[i])
			x.Assert(world.Equal(timeless(reads[i], a), timeless(reads[i], alone[p][i])), "%s is answered %v after requests were overwritten, and %v otherwise", text(i), a, alone[p][i])
			mine[i] = a
			if a.resp != nil {
				mine[i].resp = proto.Clone(a.resp)
			}
		}
		for i := range reads {
			r := proto.Clone(reads[i])
			a := s06Ask(s, r)
			scribble(r)
			x.Assert(a.same(mine[i]), "the answer to %s, %v, became %v with its request", text(i), mine[i], a)
			scribble(a.resp)
			b := s06Ask(s, reads[i])
			x.Assert(b.same(mine[i]), "%s is answered %v after its caller changed an earlier answer, and %v otherwise", text(i), b, mine[i])
			scribble(b.resp)
		}
		for i := range reads {
			a := s06Ask(s, reads[i])
			x.Assert(a.same(mine[i]), "%s is answered %v after callers changed earlier answers, and %v otherwise", text(i), a, mine[i])
		}
		x.C.Transition(3 * len(reads))
		x.C.State("reused", p, kind)
		x.C.Trace(len(reads))
	})
	// A read while another is going on.
	few := s06Reads([]string{"0"}, []string{"a", "b"})
	var fewAlone [][]s06Answer
	for p := range policies {
		var l []s06Answer
		for _, r := range few {
			l = append(l, s06Ask(on(base.Clone(), p), r))
		}
		fewAlone = append(fewAlone, l)
	}
	inner := few
	c.Explore("a read within another", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		i := x.Choose(len(few), "outer")
		n, stop, j := 0, -1, 0
		var got s06Answer
		var ended <-chan struct{}
		var s world.Service
		at := func(string) {
			now := n == stop
			n++
			if now {
				ended = world.Beside(func() { got = s06Ask(s, inner[j]) })
			}
		}
		frozen := world.Freeze(base)
		frozen.At = at
		s, err := (&verifiable.Service{AccessPolicy: &s04Hook{policies[p], at}, Reader: frozen, Mutator: &instant.Mutator{Writer: base}}).Create()
		must(err)
		a := s06Ask(s, few[i])
		x.Assert(a.same(fewAlone[p][i]), "%s is answered %v, and then %v", world.Text(few[i]), fewAlone[p][i], a)
		points := n
		for j = range inner {
			for k := 0; k < points; k++ {
				n, stop = 0, k
				a := s06Ask(s, few[i])
				<-ended
				if !a.same(fewAlone[p][i]) {
					x.Failf("%T{%s} is answered %v with %T{%s} during its call %d, and %v alone", few[i], world.Text(few[i]), a, inner[j], world.Text(inner[j]), k, fewAlone[p][i])
				}
				if !got.same(fewAlone[p][j]) {
					x.Failf("%T{%s}, during call %d of %T{%s}, is answered %v, and %v alone", inner[j], world.Text(inner[j]), k, few[i], world.Text(few[i]), got, fewAlone[p][j])
				}
			}
		}
		x.C.Transition(2 * points * len(inner))
		x.C.State("within", p, i)
		x.C.Trace(points * len(inner))
		x.C.Eval(points > 4, "points", points)
		x.C.Sample("within", "%s, with other reads at each of its %d calls", world.Text(few[i]), points)
	})
	// A write while a read is going on, and a read while a write is.
	writes := s06Writes([]string{"0"}, []string{"a", "b"})
	c.Explore("a read beside a write", func(x *mck.X) {
		i := x.Choose(len(few), "read")
		readOuter := x.Bool("within the read")
		for j, w := range writes {
			var s world.Service
			var db *world.Versions
			_, timed := w.(*pb.MapSetValueRequest)
			make := func(at func(string)) {
				db = world.NewVersions(base)
				db.At = at
				s = world.On(db, &s04Hook{policy.Open, at})
			}
			// before and after
			make(func(string) {})
			before := s06Ask(s, few[i])
			wa := s06Ask(s, w)
			settled := s06Ask(s, few[i])
			x.Assert(wa.err == nil, "%s: %v", world.Text(w), wa)
			outer, in := few[i], w
			if !readOuter {
				outer, in = w, few[i]
			}
			for k := 0; ; k++ {
				n := 0
				var got s06Answer
				var ended <-chan struct{}
				make(func(string) {
					now := n == k
					n++
					if now {
						ended = world.Beside(func() { got = s06Ask(s, in) })
					}
				})
				out := s06Ask(s, outer)
				if ended == nil {
					break
				}
				<-ended
				r, wr, after := out, got, settled
				if !readOuter {
					r, wr = got, out
				}
				x.Assert((wr.err == nil) && (timed || wr.same(wa)), "%s is answered %v beside %s (call %d), and %v alone", world.Text(w), wr, world.Text(few[i]), k, wa)
				last := s06Ask(s, few[i])
				x.Assert(world.Equal(timeless(few[i], last), timeless(few[i], after)), "%T{%s} is answered %v after %s, during which the same was asked, and %v otherwise", few[i], world.Text(few[i]), last, world.Text(w), after)
				if timed {
					// what a change of a map is told as, and so all heads over it, holds the time
					if fresh := s06Ask(world.On(db.Clone(), policy.Open), few[i]); !last.same(fresh) {
						x.Failf("%T{%s} is answered %v after %s, during which the same was asked, and %v by another service", few[i], world.Text(few[i]), last, world.Text(w), fresh)
					}
					after = last
				}
				if !r.same(before) && !r.same(after) {
					x.Failf("%T{%s}, beside %T{%s} (call %d of the outer one, the read is the outer one: %v), is answered %v; before it is %v, and after %v", few[i], world.Text(few[i]), w, world.Text(w), k, readOuter, r, before, after)
				}
				x.C.Transition(3)
			}
			x.C.State("beside", i, j, readOuter)
		}
		x.C.Trace(len(writes))
	})
}

// scribbler overwrites requests that change something once they are answered.
type scribbler struct{ world.Service }

func (s *scribbler) LogAddEntry(cx context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	r = proto.Clone(r).(*pb.LogAddEntryRequest)
	a, err := s.Service.LogAddEntry(cx, r)
	scribble(r)
	scribble(a)
	return a, err
}

func (s *scribbler) MapSetValue(cx context.Context, r *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	r = proto.Clone(r).(*pb.MapSetValueRequest)
	a, err := s.Service.MapSetValue(cx, r)
	scribble(r)
	scribble(a)
	return a, err
}

func s06Backend(x *mck.X, kind int) world.Storage {
	switch kind {
	case 0:
		return &memory.TransientStorage{}
	case 1:
		return &world.Store{}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_FAST"), "s06")
	must(err)
	x.Defer(func() { os.RemoveAll(dir) })
	if kind == 2 {
		db := &bolt.Storage{Path: filepath.Join(dir, "db")}
		must(os.Mkdir(db.Path, 0o755))
		x.Defer(func() { db.Close() })
		return db
	}
	db := &badger.Storage{Path: filepath.Join(dir, "db")}
	must(os.Mkdir(db.Path, 0o755))
	x.Defer(func() { db.Close() })
	return db
}

// timeless is what of an answer does not depend on when the maps changed.
func timeless(req proto.Message, a s06Answer) proto.Message {
	switch r := req.(type) {
	case *pb.LogFetchEntriesRequest:
		if r.Log.LogType == ltMut && a.err == nil {
			rv := &pb.LogFetchEntriesResponse{}
			for _, v := range a.resp.(*pb.LogFetchEntriesResponse).Values {
				m := &pb.MapMutation{}
				if err := json.Unmarshal(v.ExtraData, m); err != nil {
					return a.resp
				}
				m.Timestamp = ""
				b, err := proto.Marshal(m)
				must(err)
				rv.Values = append(rv.Values, &pb.LeafData{ExtraData: b})
			}
			return rv
		}
	case *pb.MapGetValueRequest:
		return a.resp
	}
	if l, ok := req.(interface{ GetLog() *pb.LogRef }); ok && l.GetLog().LogType == ltLog {
		return a.resp
	}
	return nil
}
