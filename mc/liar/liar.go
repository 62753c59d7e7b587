// Package liar has servers for checking clients: a reference server over given
// lists of entries and map states, and a server that answers each request with
// one of several answers, chosen by the exploration.
package liar

import (
	"bytes"
	"fmt"
	"math"
	"net/http"
	"sort"
	"sync"

	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// Fixed is one version of a log's or a map's history. Its logs need not
// describe its map truthfully.
type Fixed struct {
	Name  string
	Logs  map[pb.LogType][]*pb.LeafData
	Hist  []*ref.MapState // by size
	Roots [][]byte        // by size
	Vals  []map[string]*pb.LeafData
	trees map[pb.LogType]*ref.Tree
	// RawLeaves replaces leaf hashes of a log's entries.
	RawLeaves map[pb.LogType]map[int][]byte
}

// Tree is the tree of one of the logs.
func (f *Fixed) Tree(t pb.LogType) *ref.Tree {
	if f.trees == nil {
		f.trees = map[pb.LogType]*ref.Tree{}
	}
	r := f.trees[t]
	if r == nil {
		r = &ref.Tree{}
		for i, e := range f.Logs[t] {
			r.Add(e.GetLeafInput())
			if h, ok := f.RawLeaves[t][i]; ok {
				r.L[i] = h
			}
		}
		f.trees[t] = r
	}
	return r
}

// N is the size of a log.
func (f *Fixed) N(t pb.LogType) int { return len(f.Logs[t]) }

func bad() error { return status.Error(codes.InvalidArgument, "bad") }

// Head is the head of a log at a size.
func (f *Fixed) Head(t pb.LogType, n int) *pb.LogTreeHashResponse {
	if n == 0 {
		return &pb.LogTreeHashResponse{}
	}
	return &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: f.Tree(t).Root(n)}
}

// MapHead is the head of the map at a size.
func (f *Fixed) MapHead(n int) *pb.MapTreeHashResponse {
	return &pb.MapTreeHashResponse{RootHash: f.Roots[n], MutationLog: f.Head(pb.LogType_STRUCT_TYPE_MUTATION_LOG, n)}
}

func (f *Fixed) answer(req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *pb.LogTreeHashRequest:
		n := int64(f.N(r.Log.LogType))
		s := r.TreeSize
		if s == 0 {
			s = n
		}
		if s < 0 || s > n {
			return nil, bad()
		}
		return f.Head(r.Log.LogType, int(s)), nil
	case *pb.LogInclusionProofRequest:
		n := int64(f.N(r.Log.LogType))
		s := r.TreeSize
		if s == 0 {
			s = n
		}
		if s < 1 || s > n {
			return nil, bad()
		}
		t := f.Tree(r.Log.LogType)
		i := r.LeafIndex
		if len(r.MtlHash) > 0 {
			i = -1
			for k, h := range t.L {
				if bytes.Equal(h, r.MtlHash) {
					i = int64(k)
					break
				}
			}
			if i == -1 {
				return nil, status.Error(codes.NotFound, "no")
			}
		}
		if i < 0 || i >= s {
			return nil, bad()
		}
		return &pb.LogInclusionProofResponse{TreeSize: s, LeafIndex: i, AuditPath: t.Path(int(i), 0, int(s))}, nil
	case *pb.LogConsistencyProofRequest:
		n := int64(f.N(r.Log.LogType))
		s := r.TreeSize
		if s == 0 {
			s = n
		}
		if r.FromSize < 1 || s <= r.FromSize || s > n {
			return nil, bad()
		}
		return &pb.LogConsistencyProofResponse{FromSize: r.FromSize, TreeSize: s, AuditPath: f.Tree(r.Log.LogType).Proof(int(r.FromSize), int(s))}, nil
	case *pb.LogFetchEntriesRequest:
		n := int64(f.N(r.Log.LogType))
		l := r.Last
		if l == 0 {
			l = n
		}
		if r.First < 0 || r.First >= l || l > n {
			return nil, bad()
		}
		return &pb.LogFetchEntriesResponse{Values: f.Logs[r.Log.LogType][r.First:l]}, nil
	case *pb.MapTreeHashRequest:
		n := int64(len(f.Roots) - 1)
		s := r.TreeSize
		if s == 0 {
			s = n
		}
		if s < 0 || s > n {
			return nil, bad()
		}
		return f.MapHead(int(s)), nil
	case *pb.MapGetValueRequest:
		n := int64(len(f.Roots) - 1)
		s := r.TreeSize
		if s == 0 {
			s = n
		}
		if s < 0 || s > n {
			return nil, bad()
		}
		v := f.Vals[s][string(r.Key)]
		if v == nil {
			v = &pb.LeafData{}
		}
		return &pb.MapGetValueResponse{TreeSize: s, Value: v, AuditPath: f.Hist[s].Siblings(r.Key)}, nil
	}
	panic(fmt.Sprintf("mck: unexpected request %T", req))
}

// FromService reads a map's or a log's whole history from an honest service.
func FromService(s world.Service, name string, types ...pb.LogType) *Fixed {
	f := &Fixed{Name: name, Logs: map[pb.LogType][]*pb.LeafData{}}
	for _, t := range types {
		r, err := s.LogFetchEntries(world.Ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: name, LogType: t}})
		if err != nil {
			panic("mck: " + err.Error())
		}
		f.Logs[t] = r.Values
	}
	return f
}

// Alt is an alternative answer.
type Alt struct {
	What string
	Resp proto.Message
	Err  error
	HTTP *HTTP
}

// HTTP is an answer of an HTTP server.
type HTTP struct {
	Status int
	Header http.Header
	Body   []byte
	// BodyErr fails the reading of the body at its end.
	BodyErr error
}

// Key names a request: the n-th of a stream of requests that follow each other.
type Key struct {
	Stream string
	Occ    int
}

func (k Key) less(o Key) bool {
	return k.Stream < o.Stream || (k.Stream == o.Stream && k.Occ < o.Occ)
}

// Seen is a request that was made, and how many deviations its answer has.
type Seen struct {
	Key
	N int
}

// Server answers requests with Base, except those in Plan, which it answers
// with the planned deviation of Menu.
type Server struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	Base func(method string, req proto.Message) Alt
	Menu func(method string, req proto.Message, base Alt) []Alt
	// Other, if there is one, answers all requests from some request on.
	Other func(method string, req proto.Message) Alt
	// MaxCalls bounds the requests of one execution.
	MaxCalls int

	mu       sync.Mutex
	discover bool
	plan     map[Key]int
	occ      map[string]int
	Seen     []Seen
	Log      []string
	Used     []string
	Stuck    bool
	over     int // 1 + the number of requests before it goes over to Other
}

// ErrStuck is the answer when there have been too many requests.
var ErrStuck = status.Error(codes.Unavailable, "too many requests")

// Ready makes a server ready for use without deviations.
func (s *Server) Ready() { s.plan, s.occ = map[Key]int{}, map[string]int{} }

// Decide answers the next request of a stream.
func (s *Server) Decide(stream, desc string, base func() Alt, menu func(base Alt) []Alt) Alt {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.MaxCalls > 0 && len(s.Seen) >= s.MaxCalls {
		s.Stuck = true
		return Alt{What: "too many requests", Err: ErrStuck}
	}
	k := Key{stream, s.occ[stream]}
	s.occ[stream]++
	a := base()
	v, planned := s.plan[k]
	var m []Alt
	if s.discover || planned {
		m = menu(a)
	}
	s.Seen = append(s.Seen, Seen{k, len(m)})
	if planned && v < len(m) {
		a = m[v]
		s.Used = append(s.Used, fmt.Sprintf("%s %d: %s", k.Stream, k.Occ, a.What))
	}
	res := short(a.Resp)
	if a.HTTP != nil {
		res = fmt.Sprintf("%d %.200q", a.HTTP.Status, a.HTTP.Body)
	}
	s.Log = append(s.Log, fmt.Sprintf("%s -> %s: %s %v", desc, a.What, res, a.Err))
	return a
}

func (s *Server) do(method string, req proto.Message) (proto.Message, error) {
	stream := method
	if l, ok := req.(interface{ GetLog() *pb.LogRef }); ok {
		stream += " " + l.GetLog().GetLogType().String()
	}
	a := s.Decide(stream, method+" "+short(req), func() Alt {
		if s.over > 0 && len(s.Seen) >= s.over-1 {
			a := s.Other(method, req)
			a.What = "(the other server) " + a.What
			if len(s.Used) == 0 {
				s.Used = append(s.Used, fmt.Sprintf("another server after %d requests", len(s.Seen)))
			}
			return a
		}
		return s.Base(method, req)
	}, func(base Alt) []Alt { return s.Menu(method, req, base) })
	return a.Resp, a.Err
}

// Cache remembers which requests follow a plan.
type Cache struct {
	mu sync.Mutex
	m  map[string][]Seen
}

// Deviate runs the client against every plan of up to budget deviations, and,
// if the server has another, of going over to that one at some request.
// proto makes a fresh server; run uses it, and checks only if asked to.
func (ca *Cache) Deviate(x *mck.X, name string, budget int, mk func() *Server, run func(s *Server, check bool)) {
	plan := map[Key]int{}
	over := 0
	fresh := func() *Server {
		s := mk()
		s.plan, s.occ = plan, map[string]int{}
		s.over = over
		return s
	}
	var last Key
	var before []Seen
	for d := 0; d < budget; d++ {
		id := fmt.Sprint(name, plan)
		ca.mu.Lock()
		seen, ok := ca.m[id]
		ca.mu.Unlock()
		if !ok {
			s := fresh()
			s.discover = true
			run(s, false)
			s.mu.Lock()
			seen = append([]Seen{}, s.Seen...)
			s.mu.Unlock()
			sort.Slice(seen, func(i, j int) bool { return seen[i].less(seen[j].Key) })
			ca.mu.Lock()
			if ca.m == nil {
				ca.m = map[string][]Seen{}
			}
			if old, ok := ca.m[id]; ok {
				seen = old
			} else {
				ca.m[id] = seen
			}
			ca.mu.Unlock()
		}
		var opts []Seen
		total := 0
		for _, o := range seen {
			if _, in := plan[o.Key]; in {
				continue
			}
			if d > 0 && o.less(last) && has(before, o) {
				continue // the same pair in the other order
			}
			opts = append(opts, o)
			total += o.N
		}
		n := 1 + total
		if s := mk(); d == 0 && s.Other != nil {
			n += len(seen)
		}
		v := x.Choose(n, "deviation")
		if v == 0 {
			break
		}
		if v > total {
			over = v - total
			break
		}
		v--
		for _, o := range opts {
			if v < o.N {
				plan[o.Key] = v
				last = o.Key
				break
			}
			v -= o.N
		}
		before = seen
	}
	s := fresh()
	defer func() {
		s.mu.Lock()
		for _, l := range s.Log {
			x.Logf("%s", l)
		}
		s.mu.Unlock()
	}()
	run(s, true)
	s.mu.Lock()
	n, stuck := len(s.Seen), s.Stuck
	s.mu.Unlock()
	x.C.Transition(n)
	x.Assert(!stuck, "more than %d requests were made: the client does not stop", s.MaxCalls)
	x.C.Trace(1)
	x.C.Eval(len(plan) > 0, name, fmt.Sprint(plan))
}

func has(l []Seen, o Seen) bool {
	for _, s := range l {
		if s == o {
			return true
		}
	}
	return false
}

func short(m proto.Message) string {
	if m == nil {
		return "nothing"
	}
	v := fmt.Sprint(m)
	if len(v) > 200 {
		v = v[:200] + "..."
	}
	return v
}

// LogAddEntry answers.
func (s *Server) LogAddEntry(_ context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	m, err := s.do("LogAddEntry", r)
	v, _ := m.(*pb.LogAddEntryResponse)
	return v, err
}

// MapSetValue answers.
func (s *Server) MapSetValue(_ context.Context, r *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	m, err := s.do("MapSetValue", r)
	v, _ := m.(*pb.MapSetValueResponse)
	return v, err
}

// LogTreeHash answers.
func (s *Server) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	m, err := s.do("LogTreeHash", r)
	v, _ := m.(*pb.LogTreeHashResponse)
	return v, err
}

// LogInclusionProof answers.
func (s *Server) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	m, err := s.do("LogInclusionProof", r)
	v, _ := m.(*pb.LogInclusionProofResponse)
	return v, err
}

// LogConsistencyProof answers.
func (s *Server) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	m, err := s.do("LogConsistencyProof", r)
	v, _ := m.(*pb.LogConsistencyProofResponse)
	return v, err
}

// LogFetchEntries answers.
func (s *Server) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	m, err := s.do("LogFetchEntries", r)
	v, _ := m.(*pb.LogFetchEntriesResponse)
	return v, err
}

// MapTreeHash answers.
func (s *Server) MapTreeHash(_ context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	m, err := s.do("MapTreeHash", r)
	v, _ := m.(*pb.MapTreeHashResponse)
	return v, err
}

// MapGetValue answers.
func (s *Server) MapGetValue(_ context.Context, r *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	m, err := s.do("MapGetValue", r)
	v, _ := m.(*pb.MapGetValueResponse)
	return v, err
}

// Honest is the answer of f.
func Honest(f *Fixed, req proto.Message) Alt {
	m, err := f.answer(req)
	return Alt{What: "honest answer of " + f.Name, Resp: m, Err: err}
}

// Requests are variations of the numbers in a request.
func Requests(req proto.Message) []proto.Message {
	var rv []proto.Message
	fields := req.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fields.Len(); i++ {
		fd := fields.Get(i)
		if fd.Kind() != protoreflect.Int64Kind {
			continue
		}
		v := req.ProtoReflect().Get(fd).Int()
		for _, n := range []int64{0, v - 1, v + 1, v - 2, v + 2} {
			if n == v {
				continue
			}
			c := proto.Clone(req)
			c.ProtoReflect().Set(fd, protoreflect.ValueOfInt64(n))
			rv = append(rv, c)
		}
	}
	return rv
}

// Opts says how to perturb a message.
type Opts struct {
	Nil     bool // nil elements of repeated messages
	Strings [][]byte
	// Indexes of repeated elements to perturb; nil: all
	Indexes func(n int) []int
}

// Perturb lists single deviations of a message, at every depth.
func Perturb(m proto.Message, o Opts) []Alt {
	var rv []Alt
	add := func(what string, f func(m protoreflect.Message)) {
		c := proto.Clone(m)
		f(c.ProtoReflect())
		rv = append(rv, Alt{What: what, Resp: c})
	}
	var walk func(path string, get func(m protoreflect.Message) protoreflect.Message, cur protoreflect.Message)
	walk = func(path string, get func(m protoreflect.Message) protoreflect.Message, cur protoreflect.Message) {
		fields := cur.Descriptor().Fields()
		for i := 0; i < fields.Len(); i++ {
			fd := fields.Get(i)
			name := path + string(fd.Name())
			switch {
			case fd.IsList() && fd.Kind() == protoreflect.BytesKind:
				l := cur.Get(fd).List()
				setList := func(what string, f func(in [][]byte) [][]byte) {
					add(name+" "+what, func(m protoreflect.Message) {
						t := get(m)
						old := t.Get(fd).List()
						var in [][]byte
						for k := 0; k < old.Len(); k++ {
							in = append(in, append([]byte{}, old.Get(k).Bytes()...))
						}
						out := f(in)
						nl := t.NewField(fd).List()
						for _, b := range out {
							nl.Append(protoreflect.ValueOfBytes(b))
						}
						t.Set(fd, protoreflect.ValueOfList(nl))
					})
				}
				n := l.Len()
				setList("emptied", func(in [][]byte) [][]byte { return nil })
				if n > 0 {
					setList("without the first", func(in [][]byte) [][]byte { return in[1:] })
					setList("without the last", func(in [][]byte) [][]byte { return in[:n-1] })
					setList("with the last twice", func(in [][]byte) [][]byte { return append(in, in[n-1]) })
					setList("with the first twice", func(in [][]byte) [][]byte { return append([][]byte{in[0]}, in...) })
				}
				setList("with an empty element added", func(in [][]byte) [][]byte { return append(in, nil) })
				setList("with 300 elements added", func(in [][]byte) [][]byte {
					for k := 0; k < 300; k++ {
						in = append(in, make([]byte, 32))
					}
					return in
				})
				if n > 1 {
					setList("with the first two swapped", func(in [][]byte) [][]byte { in[0], in[1] = in[1], in[0]; return in })
					setList("reversed", func(in [][]byte) [][]byte {
						for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
							in[a], in[b] = in[b], in[a]
						}
						return in
					})
				}
				for _, k := range o.idx(n) {
					k := k
					for what, b := range byteAlts(l.Get(k).Bytes(), nil) {
						b := b
						setList(fmt.Sprintf("element %d %s", k, what), func(in [][]byte) [][]byte { in[k] = b; return in })
					}
				}
			case fd.IsList() && fd.Kind() == protoreflect.MessageKind:
				l := cur.Get(fd).List()
				n := l.Len()
				setList := func(what string, f func(in []protoreflect.Value) []protoreflect.Value) {
					add(name+" "+what, func(m protoreflect.Message) {
						t := get(m)
						old := t.Get(fd).List()
						var in []protoreflect.Value
						for k := 0; k < old.Len(); k++ {
							in = append(in, old.Get(k))
						}
						out := f(in)
						nl := t.NewField(fd).List()
						for _, b := range out {
							nl.Append(protoreflect.ValueOfMessage(proto.Clone(b.Message().Interface()).ProtoReflect()))
						}
						t.Set(fd, protoreflect.ValueOfList(nl))
					})
				}
				setList("emptied", func(in []protoreflect.Value) []protoreflect.Value { return nil })
				if n > 0 {
					setList("with the last twice", func(in []protoreflect.Value) []protoreflect.Value { return append(in, in[n-1]) })
					setList("with the first twice", func(in []protoreflect.Value) []protoreflect.Value {
						return append([]protoreflect.Value{in[0]}, in...)
					})
				}
				for _, k := range o.idx(n) {
					k := k
					setList(fmt.Sprintf("without element %d", k), func(in []protoreflect.Value) []protoreflect.Value {
						return append(append([]protoreflect.Value{}, in[:k]...), in[k+1:]...)
					})
					setList(fmt.Sprintf("cut at %d", k), func(in []protoreflect.Value) []protoreflect.Value { return in[:k] })
					setList(fmt.Sprintf("with element %d empty", k), func(in []protoreflect.Value) []protoreflect.Value {
						in[k] = protoreflect.ValueOfMessage(in[k].Message().New())
						return in
					})
					if k+1 < n {
						setList(fmt.Sprintf("with elements %d and %d swapped", k, k+1), func(in []protoreflect.Value) []protoreflect.Value {
							in[k], in[k+1] = in[k+1], in[k]
							return in
						})
						setList(fmt.Sprintf("with element %d instead of %d", k, k+1), func(in []protoreflect.Value) []protoreflect.Value {
							in[k+1] = in[k]
							return in
						})
					}
					if o.Nil {
						if e, ok := m.(*pb.LogFetchEntriesResponse); ok {
							c := proto.Clone(e).(*pb.LogFetchEntriesResponse)
							c.Values[k] = nil
							rv = append(rv, Alt{What: fmt.Sprintf("%s with a nil element %d", name, k), Resp: c})
						}
					}
					walk(fmt.Sprintf("%s[%d].", name, k), func(m protoreflect.Message) protoreflect.Message {
						return get(m).Mutable(fd).List().Get(k).Message()
					}, l.Get(k).Message())
				}
			case fd.Kind() == protoreflect.MessageKind:
				if !cur.Has(fd) {
					continue
				}
				add(name+" missing", func(m protoreflect.Message) { get(m).Clear(fd) })
				add(name+" empty", func(m protoreflect.Message) {
					t := get(m)
					t.Set(fd, t.NewField(fd))
				})
				walk(name+".", func(m protoreflect.Message) protoreflect.Message { return get(m).Mutable(fd).Message() }, cur.Get(fd).Message())
			case fd.Kind() == protoreflect.BytesKind:
				for what, b := range byteAlts(cur.Get(fd).Bytes(), o.Strings) {
					b := b
					add(name+" "+what, func(m protoreflect.Message) { get(m).Set(fd, protoreflect.ValueOfBytes(b)) })
				}
			case fd.Kind() == protoreflect.Int64Kind:
				v := cur.Get(fd).Int()
				for _, n := range []int64{0, -1, v - 1, v + 1, v * 2, math.MaxInt64, math.MinInt64, 1 << 62} {
					n := n
					if n != v {
						add(fmt.Sprintf("%s %d", name, n), func(m protoreflect.Message) { get(m).Set(fd, protoreflect.ValueOfInt64(n)) })
					}
				}
			case fd.Kind() == protoreflect.EnumKind:
				for _, n := range []int32{0, 1, 77} {
					if protoreflect.EnumNumber(n) != cur.Get(fd).Enum() {
						n := n
						add(fmt.Sprintf("%s %d", name, n), func(m protoreflect.Message) { get(m).Set(fd, protoreflect.ValueOfEnum(protoreflect.EnumNumber(n))) })
					}
				}
			}
		}
	}
	walk("", func(m protoreflect.Message) protoreflect.Message { return m }, m.ProtoReflect())
	// a stable order, as map iteration is not
	sortAlts(rv)
	return rv
}

func (o Opts) idx(n int) []int {
	if o.Indexes != nil {
		return o.Indexes(n)
	}
	var rv []int
	for i := 0; i < n; i++ {
		rv = append(rv, i)
	}
	return rv
}

func byteAlts(b []byte, more [][]byte) map[string][]byte {
	rv := map[string][]byte{"zero": make([]byte, 32), "extended": append(append([]byte{}, b...), 0)}
	if len(b) > 0 {
		rv["emptied"] = nil
		f := append([]byte{}, b...)
		f[0] ^= 1
		rv["with the first byte changed"] = f
		l := append([]byte{}, b...)
		l[len(l)-1] ^= 0x80
		rv["with the last byte changed"] = l
		rv["cut"] = append([]byte{}, b[:len(b)-1]...)
	}
	for i, m := range more {
		rv[fmt.Sprintf("set to %d %.20q", i, m)] = m
	}
	for k, v := range rv {
		if bytes.Equal(v, b) {
			delete(rv, k)
		}
	}
	return rv
}

func sortAlts(a []Alt) {
	sort.SliceStable(a, func(i, j int) bool { return a[i].What < a[j].What })
}
