// Package rig holds what checks share: storage backends, recording mutators,
// menus of mutations, and a reference that applies mutations one by one.
package rig

import (
	"context"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/continusec/verifiabledatastructures/merkle"
	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"

	"verifmc/fakepg"
	"verifmc/mck"
	"verifmc/vs"
	"verifmc/world"
)

var ctx = context.Background()

// Queued is a mutation as it was when handed over.
type Queued struct {
	NS       string
	Mut      *pb.Mutation
	From, To int // steps
	Accepted bool
}

// Recorder remembers what is handed to a mutator.
type Recorder struct {
	Inner verifiable.MutatorService
	mu    sync.Mutex
	List  []*Queued
	To    *Recorder // keeps the list instead
}

func (r *Recorder) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
	q := &Queued{NS: string(ns), Mut: proto.Clone(mut).(*pb.Mutation), From: vs.Step()}
	keep := r
	if r.To != nil {
		keep = r.To
	}
	keep.mu.Lock()
	keep.List = append(keep.List, q)
	keep.mu.Unlock()
	err := r.Inner.QueueMutation(ctx, ns, mut)
	q.Accepted = err == nil
	q.To = vs.Step()
	return err
}

// Act is one mutation of a menu.
type Act struct {
	Name string
	Log  string // the log, or "" for the map
	Do   func(s world.Service) error
}

func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] = '#'
		}
	}
}

func AddAct(log, in string) Act { return AddActX(log, in, "x"+in) }

// AddActX adds an entry with the extra data.
func AddActX(log, in, extra string) Act {
	return Act{log + "+" + in, log, func(s world.Service) error {
		req := &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: log, LogType: pb.LogType_STRUCT_TYPE_LOG}, Value: world.Leaf(in, extra)}
		_, err := s.LogAddEntry(ctx, req)
		scribble(req.Value.LeafInput, req.Value.ExtraData)
		req.Value.Format = 1
		req.Log.Name = "scribbled"
		return err
	}}
}

func MapAct(name, action, key, val string, prev []byte) Act {
	return MapActX(name, action, key, val, "", prev)
}

// MapActX sets a value with the extra data.
func MapActX(name, action, key, val, extra string, prev []byte) Act {
	return Act{name, "", func(s world.Service) error {
		m := &pb.MapMutation{Action: action, Key: []byte(key), PreviousLeafHash: append([]byte{}, prev...)}
		if val != "" {
			m.Value = world.Leaf(val, extra)
		}
		req := &pb.MapSetValueRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "M"}, Mutation: m}
		_, err := s.MapSetValue(ctx, req)
		scribble(m.Key, m.Value.GetLeafInput(), m.PreviousLeafHash)
		m.Action = "delete"
		req.Map.Name = "scribbled"
		return err
	}}
}

var Menu = []Act{
	AddAct("X", "a"),
	AddAct("Y", "a"),
	MapAct("set k=1", "set", "k", "1", nil),
	AddAct("X", "b"),
	MapAct("update k=1 to 2", "update", "k", "2", merkle.LeafHash([]byte("1"))),
	MapAct("delete k", "delete", "k", "", nil),
}

// TwinMenu has values that share their leaf input and differ in extra data.
var TwinMenu = []Act{
	MapActX("set k=1 p", "set", "k", "1", "p", nil),
	MapActX("set k=1 q", "set", "k", "1", "q", nil),
	MapActX("set j=1 p", "set", "j", "1", "p", nil),
	MapActX("update k=1 to 1 r", "update", "k", "1", "r", merkle.LeafHash([]byte("1"))),
	MapActX("set k=2 p", "set", "k", "2", "p", nil),
	AddActX("X", "1", "p"),
	AddActX("X", "1", "q"),
}

var SmallMenu = []Act{Menu[0], Menu[1], Menu[3]}

// observe prints all that can be seen of the logs and the map.
func Observe(s world.Service) string { return observe(s, false) }

// Glance is Observe without the consistency proofs between all sizes.
func Glance(s world.Service) string { return observe(s, true) }

func observe(s world.Service, glance bool) string {
	var b strings.Builder
	acc := &pb.AccountRef{Id: "0"}
	logs := []*pb.LogRef{
		{Account: acc, Name: "X", LogType: pb.LogType_STRUCT_TYPE_LOG},
		{Account: acc, Name: "Y", LogType: pb.LogType_STRUCT_TYPE_LOG},
		{Account: acc, Name: "M", LogType: pb.LogType_STRUCT_TYPE_MUTATION_LOG},
		{Account: acc, Name: "M", LogType: pb.LogType_STRUCT_TYPE_TREEHEAD_LOG},
	}
	for _, l := range logs {
		observeLog(&b, s, l, glance)
	}
	m := &pb.MapRef{Account: acc, Name: "M"}
	h, err := s.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: m})
	fmt.Fprintf(&b, "map %v %v\n", h, err)
	for n := int64(1); n <= h.GetMutationLog().GetTreeSize(); n++ {
		h, err := s.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: m, TreeSize: n})
		fmt.Fprintf(&b, " %d: %x %x %v\n", n, h.GetRootHash(), h.GetMutationLog().GetRootHash(), err)
		for _, k := range []string{"k", "j"} {
			v, err := s.MapGetValue(ctx, &pb.MapGetValueRequest{Map: m, Key: []byte(k), TreeSize: n})
			fmt.Fprintf(&b, "  %s=%s %v\n", k, world.Str(v.GetValue()), err)
		}
	}
	return b.String()
}

func observeLog(b *strings.Builder, s world.Service, l *pb.LogRef, glance bool) {
	h, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l})
	fmt.Fprintf(b, "%s %v: %d %v\n", l.Name, l.LogType, h.GetTreeSize(), err)
	for n := int64(1); n <= h.GetTreeSize(); n++ {
		h, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l, TreeSize: n})
		fmt.Fprintf(b, " %d: %x %v\n", n, h.GetRootHash(), err)
		for f := int64(1); f < n; f++ {
			if glance && f != 1 && f != n/2 && f != n-1 {
				continue
			}
			p, err := s.LogConsistencyProof(ctx, &pb.LogConsistencyProofRequest{Log: l, FromSize: f, TreeSize: n})
			fmt.Fprintf(b, "  from %d: %x %v\n", f, p.GetAuditPath(), err)
		}
	}
	es, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l, Last: h.GetTreeSize()})
	for _, e := range es.GetValues() {
		fmt.Fprintf(b, " %s\n", world.Str(e))
		p, err := s.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: l, TreeSize: h.GetTreeSize(), MtlHash: merkle.LeafHash(e.LeafInput)})
		fmt.Fprintf(b, "  at %d %x %v\n", p.GetLeafIndex(), p.GetAuditPath(), err)
	}
	fmt.Fprintf(b, " %v\n", err)
}

var references sync.Map

// Key identifies a list of mutations.
func Key(list []*Queued) string {
	var k strings.Builder
	for _, q := range list {
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(q.Mut)
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(&k, "%q %q ", q.NS, b)
	}
	return k.String()
}

// Reference is what is seen after applying mutations one by one.
func Reference(list []*Queued) string {
	k := Key(list)
	if v, ok := references.Load(k); ok {
		return v.(string)
	}
	v := apply(list)
	references.Store(k, v)
	return v
}

func apply(list []*Queued) string { return Observe(ReferenceService(list)) }

// GlanceReference is what Glance sees after applying mutations one by one.
func GlanceReference(list []*Queued) string { return Glance(ReferenceService(list)) }

func ReferenceService(list []*Queued) world.Service {
	db := &memory.TransientStorage{}
	m := &instant.Mutator{Writer: db}
	for _, q := range list {
		if err := m.QueueMutation(ctx, []byte(q.NS), proto.Clone(q.Mut).(*pb.Mutation)); err != nil {
			panic(fmt.Sprint("applying a mutation synchronously: ", err))
		}
	}
	return world.On(db, policy.Open)
}

func (q *Queued) String() string {
	if q.Mut.GetLogAddEntry().GetLog().GetLogType() != pb.LogType_STRUCT_TYPE_LOG {
		return fmt.Sprintf("map mutation %s", q.Mut.LogAddEntry.Value.GetExtraData())
	}
	return fmt.Sprintf("%s+%s", q.Mut.LogAddEntry.Log.Name, q.Mut.LogAddEntry.Value.GetLeafInput())
}

// Backend opens a storage for one execution.
type Backend struct {
	Name      string
	Transient bool // failing updates are not undone
	Open      func(x *mck.X) (func() world.Storage, func())
}

func ScratchDir() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_FAST"), "db")
	if err != nil {
		panic("mck: " + err.Error())
	}
	return d
}

var MemoryBackend = Backend{"memory", true, func(x *mck.X) (func() world.Storage, func()) {
	s := &memory.TransientStorage{}
	return func() world.Storage { return s }, func() {}
}}

var BoltBackend = Backend{"bolt", false, func(x *mck.X) (func() world.Storage, func()) {
	d := ScratchDir()
	s := &bolt.Storage{Path: d}
	x.Defer(func() { os.RemoveAll(d) })
	return func() world.Storage { return s }, func() { s.Close() }
}}

var BadgerBackend = Backend{"badger", false, func(x *mck.X) (func() world.Storage, func()) {
	d := ScratchDir()
	s := &badger.Storage{Path: d}
	x.Defer(func() { os.RemoveAll(d) })
	return func() world.Storage { return s }, func() { s.Close() }
}}

func PostgresBackend(many bool) Backend {
	name := "postgres"
	if many {
		name = "postgres, a connection for each goroutine"
	}
	return Backend{name, false, func(x *mck.X) (func() world.Storage, func()) {
		db := fakepg.New()
		var ss []world.Storage
		var closers []func()
		n := 1
		if many {
			n = 4
		}
		for i := 0; i < n; i++ {
			p, c, err := db.Pool()
			if err != nil {
				panic("mck: " + err.Error())
			}
			ss = append(ss, &postgres.Storage{Pool: c})
			closers = append(closers, func() {
				c.Release()
				p.Close()
			})
		}
		i := -1
		return func() world.Storage {
				if many {
					i++
				} else {
					i = 0
				}
				return ss[i]
			}, func() {
				db.Crash()
				for _, f := range closers {
					f()
				}
			}
	}}
}
