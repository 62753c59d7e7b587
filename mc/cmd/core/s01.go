package main

import (
	"bytes"
	"fmt"
	"math"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

const (
	ltLog  = pb.LogType_STRUCT_TYPE_LOG
	ltMut  = pb.LogType_STRUCT_TYPE_MUTATION_LOG
	ltHead = pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
)

var acct0 = &pb.AccountRef{Id: "0"}

// must panics on errors of the set-up.
func must(err error) {
	if err != nil {
		panic(err)
	}
}

// fixture is a store with one log and one map named "a" in account "0".
type fixture struct {
	db     *world.Store
	dump   string
	n      map[pb.LogType]int64
	hashes map[pb.LogType][][]byte
}

func buildFixture(logN, mapN int) *fixture {
	f := &fixture{db: &world.Store{}, n: map[pb.LogType]int64{ltLog: int64(logN), ltMut: int64(mapN), ltHead: int64(mapN)}, hashes: map[pb.LogType][][]byte{}}
	s := world.On(f.db, policy.Open)
	for i := 0; i < logN; i++ {
		_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acct0, Name: "a"}, Value: world.Leaf(fmt.Sprint("e", i), fmt.Sprint("x", i))})
		must(err)
	}
	for i := 0; i < mapN; i++ {
		mut := &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i%3)), Value: world.Leaf(fmt.Sprint("v", i), "")}
		if i == 2 {
			mut = &pb.MapMutation{Action: "delete", Key: []byte("k1")}
		}
		_, err := s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acct0, Name: "a"}, Mutation: mut})
		must(err)
	}
	for _, t := range []pb.LogType{ltLog, ltMut, ltHead} {
		if f.n[t] == 0 {
			continue
		}
		es, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: acct0, Name: "a", LogType: t}})
		must(err)
		for _, e := range es.Values {
			f.hashes[t] = append(f.hashes[t], ref.Leaf(e.LeafInput))
		}
	}
	f.dump = f.db.Dump()
	return f
}

var fixtures = []func() *fixture{
	sync.OnceValue(func() *fixture { return buildFixture(0, 0) }),
	sync.OnceValue(func() *fixture { return buildFixture(5, 4) }),
	sync.OnceValue(func() *fixture { return buildFixture(1, 1) }),
	sync.OnceValue(func() *fixture { return buildFixture(9, 8) }),
}

// accounts and names that a reference may carry.
var (
	refAccounts = []*pb.AccountRef{nil, {Id: "0"}, {}, {Id: "0", ApiKey: "k"}, {Id: "1"}}
	refNames    = []string{"a", "", "b"}
	refTypes    = []pb.LogType{ltLog, ltMut, ltHead, 3, 99, -1, math.MaxInt32, math.MinInt32}
)

func logRefs() []*pb.LogRef {
	rv := []*pb.LogRef{nil}
	for _, a := range refAccounts {
		for _, n := range refNames {
			for _, t := range refTypes {
				rv = append(rv, &pb.LogRef{Account: a, Name: n, LogType: t})
			}
		}
	}
	return rv
}

func mapRefs() []*pb.MapRef {
	rv := []*pb.MapRef{nil}
	for _, a := range refAccounts {
		for _, n := range refNames {
			rv = append(rv, &pb.MapRef{Account: a, Name: n})
		}
	}
	return rv
}

func (f *fixture) logSize(l *pb.LogRef) (int64, bool) {
	if l.GetAccount() == nil || l.LogType < 0 || l.LogType > 2 {
		return 0, false
	}
	if l.Account.Id == "0" && l.Name == "a" {
		return f.n[l.LogType], true
	}
	return 0, true
}

func (f *fixture) mapSize(m *pb.MapRef) (int64, bool) {
	if m.GetAccount() == nil {
		return 0, false
	}
	if m.Account.Id == "0" && m.Name == "a" {
		return f.n[ltMut], true
	}
	return 0, true
}

func sizesAround(n int64) []int64 {
	rv := []int64{math.MinInt64, math.MinInt64 + 1, math.MinInt32, -2, -1, 0, 1, 2, math.MaxInt32, 1 << 40, math.MaxInt64 - 1, math.MaxInt64}
	for _, s := range []int64{n - 1, n, n + 1} {
		if s > 2 {
			rv = append(rv, s)
		}
	}
	return rv
}

// wellFormed says whether a request asks for something that exists and is
// expressed as the API says.
func (f *fixture) wellFormed(req proto.Message) bool {
	switch r := req.(type) {
	case *pb.LogAddEntryRequest:
		_, ok := f.logSize(r.Log)
		return ok && r.Log.LogType == ltLog && r.Value != nil
	case *pb.LogTreeHashRequest:
		n, ok := f.logSize(r.Log)
		return ok && r.TreeSize >= 0 && r.TreeSize <= n
	case *pb.LogFetchEntriesRequest:
		n, ok := f.logSize(r.Log)
		last := r.Last
		if last == 0 {
			last = n
		}
		return ok && r.First >= 0 && r.First < last && last <= n
	case *pb.LogConsistencyProofRequest:
		n, ok := f.logSize(r.Log)
		second := r.TreeSize
		if second == 0 {
			second = n
		}
		return ok && r.FromSize > 0 && r.FromSize < second && second <= n
	case *pb.LogInclusionProofRequest:
		n, ok := f.logSize(r.Log)
		size := r.TreeSize
		if size == 0 {
			size = n
		}
		if !ok || size < 0 || size > n {
			return false
		}
		idx := r.LeafIndex
		if len(r.MtlHash) > 0 {
			idx = -1
			for i, h := range f.hashes[r.Log.LogType] {
				if n > 0 && bytes.Equal(h, r.MtlHash) {
					idx = int64(i)
				}
			}
		}
		return idx >= 0 && idx < size
	case *pb.MapSetValueRequest:
		_, ok := f.mapSize(r.Map)
		switch r.GetMutation().GetAction() {
		case "set", "update":
			return ok && r.Mutation.Value != nil
		case "delete":
			return ok
		}
		return false
	case *pb.MapGetValueRequest:
		n, ok := f.mapSize(r.Map)
		return ok && r.TreeSize >= 0 && r.TreeSize <= n
	case *pb.MapTreeHashRequest:
		n, ok := f.mapSize(r.Map)
		return ok && r.TreeSize >= 0 && r.TreeSize <= n
	}
	panic("mck: unknown request")
}

var reqKinds = []string{"LogAddEntry", "LogFetchEntries", "LogTreeHash", "LogInclusionProof", "LogConsistencyProof", "MapSetValue", "MapGetValue", "MapTreeHash"}

var someValues = []*pb.LeafData{
	nil, {}, {LeafInput: []byte("v")}, {ExtraData: []byte("x")}, {LeafInput: []byte("v"), ExtraData: []byte("{}"), Format: pb.DataFormat_JSON},
	{LeafInput: []byte("v"), ExtraData: []byte("\xff"), Format: 77}, {LeafInput: make([]byte, 100000)},
}

func someBytes(l ...[]byte) [][]byte {
	return append(l, nil, []byte{}, []byte("x"), make([]byte, 32), bytes.Repeat([]byte{255}, 33), make([]byte, 70000))
}

// requests enumerates the requests of a kind for a reference (number ri).
func (f *fixture) requests(kind string, ri int, do func(proto.Message)) bool {
	if kind[:3] == "Log" {
		refs := logRefs()
		if ri >= len(refs) {
			return false
		}
		l := refs[ri]
		n, _ := f.logSize(l)
		sizes := sizesAround(n)
		switch kind {
		case "LogAddEntry":
			for _, v := range someValues {
				do(&pb.LogAddEntryRequest{Log: l, Value: v})
			}
		case "LogFetchEntries":
			for _, a := range sizes {
				for _, b := range sizes {
					do(&pb.LogFetchEntriesRequest{Log: l, First: a, Last: b})
				}
			}
		case "LogTreeHash":
			for _, a := range sizes {
				do(&pb.LogTreeHashRequest{Log: l, TreeSize: a})
			}
		case "LogInclusionProof":
			hs := someBytes()
			for _, h := range f.hashes[ltLog] {
				hs = append(hs, h, h[:31])
			}
			for _, t := range []pb.LogType{ltMut, ltHead} {
				if len(f.hashes[t]) > 0 {
					hs = append(hs, f.hashes[t][0], f.hashes[t][len(f.hashes[t])-1])
				}
			}
			for _, a := range sizes {
				for _, b := range sizes {
					do(&pb.LogInclusionProofRequest{Log: l, TreeSize: a, LeafIndex: b})
				}
				for _, h := range hs {
					for _, b := range []int64{0, -1, math.MaxInt64} {
						do(&pb.LogInclusionProofRequest{Log: l, TreeSize: a, LeafIndex: b, MtlHash: h})
					}
				}
			}
		case "LogConsistencyProof":
			for _, a := range sizes {
				for _, b := range sizes {
					do(&pb.LogConsistencyProofRequest{Log: l, FromSize: a, TreeSize: b})
				}
			}
		}
		return true
	}
	refs := mapRefs()
	if ri >= len(refs) {
		return false
	}
	m := refs[ri]
	n, _ := f.mapSize(m)
	keys := someBytes([]byte("k0"), []byte("k1"))
	switch kind {
	case "MapSetValue":
		do(&pb.MapSetValueRequest{Map: m})
		for _, act := range []string{"set", "update", "delete", "", "SET", "set ", "get", "\xff", "update\x00"} {
			for vi, v := range someValues {
				for pi, p := range someBytes() {
					for ki, k := range keys {
						if ki > 2 && vi > 2 && pi > 1 {
							continue // large keys only with a few values
						}
						do(&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: act, Key: k, Value: v, PreviousLeafHash: p, Timestamp: []string{"", "not a time"}[pi%2]}})
					}
				}
			}
		}
	case "MapGetValue":
		for _, k := range keys {
			for _, a := range sizesAround(n) {
				do(&pb.MapGetValueRequest{Map: m, Key: k, TreeSize: a})
			}
		}
	case "MapTreeHash":
		for _, a := range sizesAround(n) {
			do(&pb.MapTreeHashRequest{Map: m, TreeSize: a})
		}
	}
	return true
}

func numRefs(kind string) int {
	if kind[:3] == "Log" {
		return len(logRefs())
	}
	return len(mapRefs())
}

// safely calls s, reporting panics as failures of the property.
func safely(x *mck.X, s world.Service, req proto.Message) (rv proto.Message, err error) {
	defer func() {
		if p := recover(); p != nil {
			x.Failf("%T{%.200s} panicked: %v", req, world.Text(req), p)
		}
	}()
	return world.Call(s, req)
}

func init() {
	mck.Register(mck.Check{
		ID:   "S01",
		Rule: "every malformed request is answered with an error and changes nothing stored; every well-formed one is served; reads never change anything stored; without a mutator reads are served and writes refused",
		Assumptions: []string{
			"the request message itself is not nil (gRPC and REST never produce one)",
			"a transactional in-memory store stands for the storage; storage itself is D01's",
		},
		Budget: 120 * time.Second,
		Run:    runS01,
	})
}

func runS01(c *mck.C) {
	c.Explore("requests", func(x *mck.X) {
		fi := x.Choose(len(fixtures), "store contents")
		kind := reqKinds[x.Choose(len(reqKinds), "kind")]
		ri := x.Choose(numRefs(kind), "reference")
		mode := x.Choose(2, "mutator")
		f := fixtures[fi]()
		db := f.db.Clone()
		open := world.On(db, policy.Open)
		svc := open
		if mode == 1 {
			var err error
			svc, err = (&verifiable.Service{AccessPolicy: policy.Open, Reader: db}).Create()
			must(err)
		}
		n := 0
		f.requests(kind, ri, func(req proto.Message) {
			n++
			before := proto.Clone(req)
			ok := f.wellFormed(req)
			write := world.IsWrite(req)
			resp, err := safely(x, svc, req)
			x.Assert(proto.Equal(before, req), "%T{%.200s}: the request was altered", req, world.Text(before))
			x.C.Transition(1)
			if mode == 1 && write {
				x.Assert(err != nil, "a service without a mutator acknowledged %T{%.200s}", req, world.Text(req))
			} else if ok {
				x.Assert(err == nil && resp != nil, "well-formed %T{%.200s} was refused: %v", req, world.Text(req), err)
			} else {
				x.Assert(err != nil, "malformed %T{%.200s} was answered %.200s", req, world.Text(req), world.Text(resp))
				x.Assert(world.Code(err) != codes.OK, "malformed %T{%.200s} got error %v, whose code is OK", req, world.Text(req), err)
			}
			changed := db.Version != 0
			if write && ok && mode == 0 {
				x.Assert(changed, "%T{%.200s} was acknowledged without effect", req, world.Text(req))
				*db = *f.db.Clone() // Version is 0 again
			} else {
				x.Assert(!changed, "%T{%.200s} (error %v) changed what is stored", req, world.Text(req), err)
			}
			x.C.Eval(true, fi, mode, fmt.Sprintf("%T", req), world.Code(err), ok)
		})
		x.Assert(db.Dump() == f.dump, "the last of the requests changed what is stored")
		x.C.State(fi, kind, ri, mode)
		x.C.Trace(n)
		x.C.Sample(kind, "%d requests with reference %d on store %d", n, ri, fi)
	})
}
