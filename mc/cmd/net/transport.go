package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"net/http"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"golang.org/x/net/context"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// tap is a service that remembers the request that reached it and what it
// answered.
type tap struct {
	pb.UnimplementedVerifiableDataStructuresServiceServer
	mu    sync.Mutex
	inner func(req proto.Message) (proto.Message, error)
	n     int
	req   proto.Message
	resp  proto.Message
	err   error
}

func (t *tap) reset(inner func(req proto.Message) (proto.Message, error)) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.inner, t.n, t.req, t.resp, t.err = inner, 0, nil, nil, nil
}

func (t *tap) got() (n int, req, resp proto.Message, err error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n, t.req, t.resp, t.err
}

func (t *tap) do(req proto.Message) (proto.Message, error) {
	t.mu.Lock()
	t.n++
	t.req = proto.Clone(req)
	inner := t.inner
	t.mu.Unlock()
	resp, err := inner(req)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.resp, t.err = resp, err
	return resp, err
}

func (t *tap) LogAddEntry(_ context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.LogAddEntryResponse)
	return v, err
}
func (t *tap) LogFetchEntries(_ context.Context, r *pb.LogFetchEntriesRequest) (*pb.LogFetchEntriesResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.LogFetchEntriesResponse)
	return v, err
}
func (t *tap) LogTreeHash(_ context.Context, r *pb.LogTreeHashRequest) (*pb.LogTreeHashResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.LogTreeHashResponse)
	return v, err
}
func (t *tap) LogInclusionProof(_ context.Context, r *pb.LogInclusionProofRequest) (*pb.LogInclusionProofResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.LogInclusionProofResponse)
	return v, err
}
func (t *tap) LogConsistencyProof(_ context.Context, r *pb.LogConsistencyProofRequest) (*pb.LogConsistencyProofResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.LogConsistencyProofResponse)
	return v, err
}
func (t *tap) MapSetValue(_ context.Context, r *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.MapSetValueResponse)
	return v, err
}
func (t *tap) MapGetValue(_ context.Context, r *pb.MapGetValueRequest) (*pb.MapGetValueResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.MapGetValueResponse)
	return v, err
}
func (t *tap) MapTreeHash(_ context.Context, r *pb.MapTreeHashRequest) (*pb.MapTreeHashResponse, error) {
	m, err := t.do(r)
	v, _ := m.(*pb.MapTreeHashResponse)
	return v, err
}

// pipes is a network of one server.
type pipes struct {
	c    chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipes() *pipes { return &pipes{c: make(chan net.Conn), done: make(chan struct{})} }

func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.c:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}
func (p *pipes) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipes) Addr() net.Addr { return &net.UnixAddr{Name: "server", Net: "unix"} }
func (p *pipes) Dial() (net.Conn, error) {
	a, b := net.Pipe()
	p.c <- b
	return a, nil
}

// hooks are points on the way of a request, at each of which something else
// can be done.
type hooks struct {
	mu    sync.Mutex
	on    bool
	seen  []string
	count map[string]int
	want  string
	do    func()
}

// watch starts with no point seen; do is called at the one wanted.
func (h *hooks) watch(want string, do func()) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.on, h.seen, h.count, h.want, h.do = true, nil, map[string]int{}, want, do
}

// stop gives the points seen.
func (h *hooks) stop() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.on = false
	return h.seen
}

func (h *hooks) at(point string) {
	h.mu.Lock()
	if !h.on || h.count[point] == 3 {
		h.mu.Unlock()
		return
	}
	h.count[point]++
	point = fmt.Sprint(point, " ", h.count[point])
	h.seen = append(h.seen, point)
	if point != h.want {
		h.mu.Unlock()
		return
	}
	h.on = false
	do := h.do
	h.mu.Unlock()
	world.Beside(do)
}

type hookedContext struct {
	context.Context
	h *hooks
}

func (c *hookedContext) Value(key interface{}) interface{} {
	c.h.at("value of the context")
	return c.Context.Value(key)
}

func (c *hookedContext) Done() <-chan struct{} {
	c.h.at("end of the context")
	return c.Context.Done()
}

func (c *hookedContext) Deadline() (time.Time, bool) {
	c.h.at("deadline of the context")
	return c.Context.Deadline()
}

type hookedBody struct {
	io.ReadCloser
	h    *hooks
	name string
	step int
}

func (b *hookedBody) Read(p []byte) (int, error) {
	b.h.at(b.name + " read")
	if len(p) > b.step && b.step > 0 {
		p = p[:b.step]
	}
	n, err := b.ReadCloser.Read(p)
	if err != nil {
		b.h.at(b.name + " ended")
	}
	return n, err
}

func (b *hookedBody) Close() error {
	b.h.at(b.name + " closed")
	return b.ReadCloser.Close()
}

type hookedWriter struct {
	http.ResponseWriter
	h *hooks
}

func (w *hookedWriter) WriteHeader(code int) {
	w.h.at("status")
	w.ResponseWriter.WriteHeader(code)
}

func (w *hookedWriter) Write(p []byte) (int, error) {
	w.h.at("answer")
	n, err := w.ResponseWriter.Write(p)
	w.h.at("answer written")
	return n, err
}

// handler is h with points.
func (h *hooks) handler(inner http.Handler) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		h.at("request")
		q := *r // the server keeps looking at its own request's body
		q.Body = &hookedBody{r.Body, h, "request body at the server", 0}
		inner.ServeHTTP(&hookedWriter{w, h}, &q)
		h.at("handled")
	})
}

type hookedRoundTripper struct {
	http.RoundTripper
	h *hooks
}

func (t *hookedRoundTripper) RoundTrip(r *http.Request) (*http.Response, error) {
	t.h.at("sending")
	if r.Body != nil {
		r = r.Clone(r.Context())
		r.Body = &hookedBody{r.Body, t.h, "request body", 11}
	}
	resp, err := t.RoundTripper.RoundTrip(r)
	t.h.at("answered")
	if resp != nil && resp.Body != nil {
		resp.Body = &hookedBody{resp.Body, t.h, "answer body", 100}
	}
	return resp, err
}

// client is c with points.
func (h *hooks) client(c *http.Client) *http.Client {
	c.Transport = &hookedRoundTripper{c.Transport, h}
	return c
}

// httpTo is a client whose every request goes to a handler, through real HTTP
// client, connection and server.
func httpTo(h http.Handler) *http.Client {
	p := newPipes()
	go (&http.Server{Handler: h, ErrorLog: log.New(io.Discard, "", 0)}).Serve(p)
	return &http.Client{Transport: &http.Transport{
		DialContext:        func(context.Context, string, string) (net.Conn, error) { return p.Dial() },
		DisableCompression: true,
	}}
}

// transport is a way to call a service from afar.
type transport struct {
	name string
	// service calls t from afar
	service world.Service
	tap     *tap
	hooks   *hooks
	// largest message that it must carry
	largest int
	// expressible: whether the transport can carry the request
	expressible func(req proto.Message) bool
	// trims: API keys lose the space around them
	trims bool
	// kind of an error
	kind func(err error) string
}

func restKind(err error) string {
	switch status.Code(err) {
	case codes.OK:
		return "ok"
	case codes.PermissionDenied, codes.InvalidArgument, codes.NotFound:
		return status.Code(err).String()
	}
	return "another error"
}

func grpcKind(err error) string { return status.Code(err).String() }

var (
	restAccount = regexp.MustCompile(`^[0-9]+$`)
	restName    = regexp.MustCompile(`^[0-9a-z_-]+$`)
)

func restKey(k string) bool {
	for i := 0; i < len(k); i++ {
		if (k[i] < ' ' && k[i] != '\t') || k[i] == 0x7f {
			return false
		}
		if (i == 0 || i == len(k)-1) && (k[i] == ' ' || k[i] == '\t') {
			return false // HTTP drops it
		}
	}
	return true
}

type hasLog interface{ GetLog() *pb.LogRef }
type hasMap interface{ GetMap() *pb.MapRef }

// object gives the parts of a request's object.
func object(req proto.Message) (acc *pb.AccountRef, name string, t pb.LogType) {
	if l, ok := req.(hasLog); ok {
		return l.GetLog().GetAccount(), l.GetLog().GetName(), l.GetLog().GetLogType()
	}
	m := req.(hasMap).GetMap()
	return m.GetAccount(), m.GetName(), 0
}

func restExpressible(req proto.Message) bool {
	acc, name, t := object(req)
	if acc == nil || !restAccount.MatchString(acc.Id) || !restName.MatchString(name) || t < 0 || t > 2 || !restKey(acc.ApiKey) {
		return false
	}
	switch r := req.(type) {
	case *pb.LogFetchEntriesRequest:
		return r.First >= 0 && r.Last >= 0
	case *pb.LogTreeHashRequest:
		return r.TreeSize >= 0
	case *pb.LogInclusionProofRequest:
		return r.TreeSize >= 0 && (len(r.MtlHash) > 0 || r.LeafIndex >= 0)
	case *pb.LogConsistencyProofRequest:
		return r.TreeSize >= 0 && r.FromSize >= 0
	case *pb.MapGetValueRequest:
		return r.TreeSize >= 0 && len(r.Key) > 0
	case *pb.MapTreeHashRequest:
		return r.TreeSize >= 0
	case *pb.MapSetValueRequest:
		switch r.Mutation.GetAction() {
		case "set", "update", "delete":
		default:
			return false
		}
		return len(r.Mutation.Key) > 0
	}
	return true
}

func grpcExpressible(req proto.Message) bool {
	acc, name, _ := object(req)
	ok := utf8.ValidString(acc.GetId()) && utf8.ValidString(acc.GetApiKey()) && utf8.ValidString(name)
	if m, is := req.(*pb.MapSetValueRequest); is {
		ok = ok && utf8.ValidString(m.GetMutation().GetAction())
	}
	return ok
}

// normal is a request without the parts that mean nothing, or that the
// transport can't carry.
func (t *transport) normal(req proto.Message) proto.Message {
	req = proto.Clone(req)
	if t.trims {
		if acc, _, _ := object(req); acc != nil {
			acc.ApiKey = strings.Trim(acc.ApiKey, " \t")
		}
	}
	switch r := req.(type) {
	case *pb.MapSetValueRequest:
		if m := r.Mutation; m != nil {
			m.Timestamp = ""
			if m.Action != "update" {
				m.PreviousLeafHash = nil
			}
			if m.Action == "delete" {
				m.Value = nil
			}
		}
	case *pb.LogInclusionProofRequest:
		if len(r.MtlHash) > 0 {
			r.LeafIndex = 0
		}
	}
	return req
}

// plain is an answer in which absent and empty data are the same.
func plain(resp proto.Message) proto.Message {
	if resp == nil {
		return nil
	}
	resp = proto.Clone(resp)
	if r, ok := resp.(*pb.MapGetValueResponse); ok && r.Value == nil {
		r.Value = &pb.LeafData{}
	}
	return resp
}

// call makes one call, to a service over db, directly and from afar.
func (t *transport) call(x *mck.X, db *world.Store, pol *policy.Static, req proto.Message) {
	var on func() (world.Service, *world.Store)
	if pol == nil {
		on = func() (world.Service, *world.Store) { c := db.Clone(); return world.On(c, policy.Open), c }
	} else {
		on = func() (world.Service, *world.Store) { c := db.Clone(); return world.On(c, pol), c }
	}
	s, there := on()
	t.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
	sent := proto.Clone(req)
	resp, err := world.Call(t.service, req)
	n, got, ir, ie := t.tap.got()
	x.C.Transition(1)
	what := world.Text(sent)
	x.Assert(proto.Equal(sent, req), "%s: the call changed its request %s to %s", t.name, what, world.Text(req))
	x.Assert((resp == nil) == (err != nil), "%s: %s is answered with both or neither of %s and %v", t.name, what, world.Text(resp), err)
	x.Assert(n <= 1, "%s: %s reached the service %d times", t.name, what, n)
	if n == 1 {
		x.Assert(proto.Equal(t.normal(got), t.normal(sent)), "%s: %s of %T reached the service as %s of %T", t.name, what, sent, world.Text(got), got)
		x.Assert(t.kind(err) == t.kind(ie), "%s: %s was answered with error %v, and %v from afar", t.name, what, ie, err)
		x.Assert(world.Equal(plain(resp), plain(ir)), "%s: %s was answered %s, and %s from afar", t.name, what, world.Text(ir), world.Text(resp))
		return
	}
	x.Assert(err != nil, "%s: %s never reached the service but was answered %s", t.name, what, world.Text(resp))
	x.Assert(there.Version == 0, "%s: %s never reached the service but had an effect", t.name, what)
	if t.expressible(sent) {
		d, _ := on()
		dr, de := world.Call(d, sent)
		x.Assert(de != nil, "%s: %s is answered %s, but fails from afar: %v", t.name, what, world.Text(dr), err)
		// the transport may object before the service can
		x.Assert(t.kind(err) == t.kind(de) || status.Code(err) == codes.InvalidArgument, "%s: %s fails with %v, and with %v from afar", t.name, what, de, err)
	}
}

// ------------------------------------------------------------ the requests

func sizes(n int64) []int64 {
	return []int64{0, 1, n - 1, n, n + 1, -1, 7, 10, 1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MinInt64}
}

var apiKeys = []string{"", "k", "two words", "a  b", "Key x", "ключ", "\xff\xfe", "a,b;c=\"d'\\", "a\tb", " a", "a ", "\ta", "a\r\nX-Previous-LeafHash: 00", "a\nb", "\x00", "\x7f", "*", "%41", "very long " + string(bytes.Repeat([]byte("k"), 3000))}

func accounts() []*pb.AccountRef {
	rv := []*pb.AccountRef{nil, {}}
	for _, id := range []string{"0", "1", "00", "18446744073709551616", "", "a", "-1", "0 ", "0?x=1", "0#x", "0/log/l", "..", "0/..", "0%2f", "%30", "０", "0\n", "0/map/m"} {
		rv = append(rv, &pb.AccountRef{Id: id, ApiKey: "key"})
	}
	for _, k := range apiKeys {
		rv = append(rv, &pb.AccountRef{Id: "0", ApiKey: k})
	}
	return rv
}

var names = []string{"l", "m", "a-b_c9", "-", "_", "0", "head", "log", "mutation", "tree", "entry", "key", "extra", string(bytes.Repeat([]byte("n"), 500)),
	"", "L", "a b", "a/b", "a%2fb", "..", ".", "../log/l", "m/log/mutation", "l?", "l#", "l?x=y", "l/entry/0?", "l/tree/1#", "é", "\xff", "a\x00", "l ", "l%20", "%6c", "a+b", "a.b", "l/", "/l", "l//", "\\", "l\r\n", "l;x", "l:", "l&", "[", "*"}

func values() []*pb.LeafData {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	rv := []*pb.LeafData{nil, {}, {LeafInput: all}, {LeafInput: []byte("x"), ExtraData: all}, {ExtraData: []byte("only extra")}, {LeafInput: []byte("j"), ExtraData: []byte(`{"a":[1,null,"é\u2028<>&"]}`), Format: pb.DataFormat_JSON},
		{LeafInput: []byte("f"), Format: 9}, {LeafInput: []byte("f"), Format: -1}, {LeafInput: bytes.Repeat([]byte{0xff, 0}, 5000), ExtraData: bytes.Repeat([]byte{'"'}, 7000)}, {LeafInput: []byte("null")}, {LeafInput: []byte{0}}}
	for i := 1; i <= 4; i++ {
		rv = append(rv, &pb.LeafData{LeafInput: all[256-i:], ExtraData: all[:i]})
	}
	return rv
}

func keys() [][]byte {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	rv := [][]byte{nil, []byte("k0"), []byte("k1"), []byte("absent"), all, {0}, {0xff}, []byte("extra"), []byte("/"), []byte("a/b"), []byte("?x"), []byte("#"), []byte(".."), []byte("h/00"), bytes.Repeat([]byte("k"), 2000)}
	for i := 0; i < 256; i += 5 {
		rv = append(rv, []byte{byte(i), byte(255 - i)})
	}
	return rv
}

var prevHashes = [][]byte{nil, {}, {0}, ref.Leaf([]byte("v0")), ref.Leaf(nil), bytes.Repeat([]byte{7}, 100)}

// base requests of one kind: about a log or map that exists.
func bases(n int64) []proto.Message {
	acc := &pb.AccountRef{Id: "0", ApiKey: "key"}
	var rv []proto.Message
	for _, t := range []pb.LogType{ltLog, ltMut, ltHead} {
		l := &pb.LogRef{Account: acc, Name: "l", LogType: t}
		rv = append(rv,
			&pb.LogAddEntryRequest{Log: l, Value: world.Leaf("new", "x")},
			&pb.LogFetchEntriesRequest{Log: l, First: 0, Last: n},
			&pb.LogTreeHashRequest{Log: l, TreeSize: n - 1},
			&pb.LogInclusionProofRequest{Log: l, TreeSize: n, LeafIndex: 1},
			&pb.LogInclusionProofRequest{Log: l, TreeSize: n, MtlHash: ref.Leaf([]byte("e1"))},
			&pb.LogConsistencyProofRequest{Log: l, FromSize: 1, TreeSize: n},
		)
	}
	m := &pb.MapRef{Account: acc, Name: "l"}
	rv = append(rv,
		&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k0"), Value: world.Leaf("new", "x")}},
		&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "update", Key: []byte("k0"), Value: world.Leaf("new", "x"), PreviousLeafHash: ref.Leaf([]byte("v0"))}},
		&pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "delete", Key: []byte("k0")}},
		&pb.MapGetValueRequest{Map: m, Key: []byte("k0"), TreeSize: n},
		&pb.MapTreeHashRequest{Map: m, TreeSize: n},
	)
	return rv
}

// dim is a part of a request that can be varied.
type dim struct {
	name string
	n    int
	set  func(req proto.Message, i int)
}

func setRef(req proto.Message, f func(acc **pb.AccountRef, name *string, t *pb.LogType)) {
	rl := func(l *pb.LogRef) {
		if l != nil {
			f(&l.Account, &l.Name, &l.LogType)
		}
	}
	rm := func(m *pb.MapRef) {
		if m != nil {
			var t pb.LogType
			f(&m.Account, &m.Name, &t)
		}
	}
	if l, ok := req.(hasLog); ok {
		rl(l.GetLog())
	} else {
		rm(req.(hasMap).GetMap())
	}
}

// dims lists what can be varied in a request.
func dims(req proto.Message, n int64) []dim {
	accs, vals, ks, sz := accounts(), values(), keys(), sizes(n)
	types := []pb.LogType{ltLog, ltMut, ltHead, 3, -1, math.MaxInt32}
	rv := []dim{
		{"account", len(accs), func(req proto.Message, i int) {
			setRef(req, func(a **pb.AccountRef, _ *string, _ *pb.LogType) { *a = accs[i] })
		}},
		{"name", len(names), func(req proto.Message, i int) {
			setRef(req, func(_ **pb.AccountRef, s *string, _ *pb.LogType) { *s = names[i] })
		}},
		{"no object", 1, func(req proto.Message, i int) {
			m := req.ProtoReflect()
			m.Clear(m.Descriptor().Fields().ByNumber(1))
		}},
	}
	if _, ok := req.(hasLog); ok {
		rv = append(rv, dim{"type", len(types), func(req proto.Message, i int) {
			setRef(req, func(_ **pb.AccountRef, _ *string, t *pb.LogType) { *t = types[i] })
		}})
	}
	switch req.(type) {
	case *pb.LogAddEntryRequest:
		rv = append(rv, dim{"value", len(vals), func(req proto.Message, i int) { req.(*pb.LogAddEntryRequest).Value = vals[i] }})
	case *pb.LogFetchEntriesRequest:
		rv = append(rv, dim{"first", len(sz), func(req proto.Message, i int) { req.(*pb.LogFetchEntriesRequest).First = sz[i] }},
			dim{"last", len(sz), func(req proto.Message, i int) { req.(*pb.LogFetchEntriesRequest).Last = sz[i] }})
	case *pb.LogTreeHashRequest:
		rv = append(rv, dim{"size", len(sz), func(req proto.Message, i int) { req.(*pb.LogTreeHashRequest).TreeSize = sz[i] }})
	case *pb.LogInclusionProofRequest:
		hs := [][]byte{nil, {0}, ref.Leaf([]byte("e0")), ref.Leaf([]byte("never")), bytes.Repeat([]byte{0xab}, 300)}
		rv = append(rv, dim{"size", len(sz), func(req proto.Message, i int) { req.(*pb.LogInclusionProofRequest).TreeSize = sz[i] }},
			dim{"index", len(sz), func(req proto.Message, i int) { req.(*pb.LogInclusionProofRequest).LeafIndex = sz[i] }},
			dim{"hash", len(hs), func(req proto.Message, i int) { req.(*pb.LogInclusionProofRequest).MtlHash = hs[i] }})
	case *pb.LogConsistencyProofRequest:
		rv = append(rv, dim{"size", len(sz), func(req proto.Message, i int) { req.(*pb.LogConsistencyProofRequest).TreeSize = sz[i] }},
			dim{"from", len(sz), func(req proto.Message, i int) { req.(*pb.LogConsistencyProofRequest).FromSize = sz[i] }})
	case *pb.MapGetValueRequest:
		rv = append(rv, dim{"size", len(sz), func(req proto.Message, i int) { req.(*pb.MapGetValueRequest).TreeSize = sz[i] }},
			dim{"key", len(ks), func(req proto.Message, i int) { req.(*pb.MapGetValueRequest).Key = ks[i] }})
	case *pb.MapTreeHashRequest:
		rv = append(rv, dim{"size", len(sz), func(req proto.Message, i int) { req.(*pb.MapTreeHashRequest).TreeSize = sz[i] }})
	case *pb.MapSetValueRequest:
		acts := []string{"set", "update", "delete", "", "Set", "add", "\xff", "set "}
		mut := func(f func(m *pb.MapMutation, i int)) func(req proto.Message, i int) {
			return func(req proto.Message, i int) {
				if m := req.(*pb.MapSetValueRequest).Mutation; m != nil {
					f(m, i)
				}
			}
		}
		rv = append(rv, dim{"value", len(vals), mut(func(m *pb.MapMutation, i int) { m.Value = vals[i] })},
			dim{"key", len(ks), mut(func(m *pb.MapMutation, i int) { m.Key = ks[i] })},
			dim{"previous", len(prevHashes), mut(func(m *pb.MapMutation, i int) { m.PreviousLeafHash = prevHashes[i] })},
			dim{"action", len(acts), mut(func(m *pb.MapMutation, i int) { m.Action = acts[i] })},
			dim{"timestamp", 2, mut(func(m *pb.MapMutation, i int) { m.Timestamp = []string{"", "2020"}[i] })},
			dim{"no mutation", 1, func(req proto.Message, i int) { req.(*pb.MapSetValueRequest).Mutation = nil }})
	}
	return rv
}

// filled is a store with a log and a map called "l".
var filled = sync.OnceValue(func() *world.Store {
	db := &world.Store{}
	s := world.On(db, policy.Open)
	acc := &pb.AccountRef{Id: "0"}
	vs := []*pb.LeafData{world.Leaf("e0", ""), world.Leaf("e1", "x1"), {LeafInput: []byte{0, 255, '<'}, ExtraData: []byte(`{"a":"` + "\u2028" + `<&"}`), Format: pb.DataFormat_JSON}, {}, {LeafInput: []byte("f9"), Format: 9}, world.Leaf("e5", "")}
	for _, v := range vs {
		_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: "l"}, Value: v})
		must(err)
	}
	for i, v := range vs {
		mut := &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i%4)), Value: v}
		if i == 5 {
			mut = &pb.MapMutation{Action: "delete", Key: []byte("k2")}
		}
		_, err := s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: "l"}, Mutation: mut})
		must(err)
	}
	return db
})

const filledN = 6

// filledMore is filled with more logs and maps: in it every account and name
// has contents of its own.
var filledMore = sync.OnceValue(func() *world.Store {
	db := filled().Clone()
	s := world.On(db, policy.Open)
	for _, o := range [][2]string{{"0", "m"}, {"1", "l"}, {"1", "m"}} {
		for i := 0; i < 3; i++ {
			v := world.Leaf(fmt.Sprintf("e%d", i), fmt.Sprint(o, i))
			acc := &pb.AccountRef{Id: o[0]}
			_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: o[1]}, Value: v})
			must(err)
			_, err = s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: o[1]}, Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i)), Value: v}})
			must(err)
		}
	}
	return db
})

// others are requests like the base requests, which differ from them in every part.
func others() []proto.Message {
	var rv []proto.Message
	for _, b := range bases(3) {
		for v := 0; v < 2; v++ {
			b := proto.Clone(b)
			setRef(b, func(a **pb.AccountRef, name *string, _ *pb.LogType) {
				*a = &pb.AccountRef{Id: "1", ApiKey: "another key"}
				if v == 0 {
					*a = &pb.AccountRef{Id: "0"}
				}
				*name = []string{"l", "m"}[v]
			})
			switch r := b.(type) {
			case *pb.LogAddEntryRequest:
				r.Value = &pb.LeafData{LeafInput: []byte("another entry"), ExtraData: []byte(`{"other":1}`), Format: pb.DataFormat_JSON}
			case *pb.LogInclusionProofRequest:
				if len(r.MtlHash) > 0 {
					r.MtlHash = ref.Leaf([]byte("e0"))
				} else {
					r.LeafIndex = 0
				}
			case *pb.LogConsistencyProofRequest:
				r.FromSize = 2
			case *pb.LogFetchEntriesRequest:
				r.First = 1
			case *pb.MapGetValueRequest:
				r.Key = []byte("k1")
			case *pb.MapTreeHashRequest:
				r.TreeSize = 2
			case *pb.MapSetValueRequest:
				r.Mutation.Key = []byte("k1")
				if r.Mutation.Action != "delete" {
					r.Mutation.Value = world.Leaf("another", strings.Repeat("y", 600))
				}
				if r.Mutation.Action == "update" {
					r.Mutation.PreviousLeafHash = ref.Leaf([]byte("e1"))
				}
			}
			rv = append(rv, b)
		}
	}
	return rv
}

// exchange is a request that reached the service, and what it answered.
type exchange struct {
	req, resp proto.Message
	err       error
	// changed: the request became another while it was being served
	changed bool
}

// together makes two calls, the second while the first has come to a point of
// its way, and gives the points of the first.
func (t *transport) together(x *mck.X, db *world.Store, a, b proto.Message, point string) []string {
	s := world.On(db.Clone(), policy.Open)
	var mu sync.Mutex
	var got []*exchange
	t.tap.reset(func(req proto.Message) (proto.Message, error) {
		e := &exchange{req: proto.Clone(req)}
		mu.Lock()
		got = append(got, e)
		mu.Unlock()
		t.hooks.at("service")
		mu.Lock()
		e.resp, e.err = world.Call(s, e.req)
		mu.Unlock()
		t.hooks.at("service answered")
		mu.Lock()
		e.changed = !proto.Equal(req, e.req)
		mu.Unlock()
		return e.resp, e.err
	})
	var br proto.Message
	var be error
	asked := make(chan struct{})
	t.hooks.watch(point, func() {
		br, be = world.Call(t.service, b)
		close(asked)
	})
	ar, ae := world.CallWith(&hookedContext{ctx, t.hooks}, t.service, a)
	seen := t.hooks.stop()
	x.C.Transition(1)
	one := func(req, resp proto.Message, err error, beside proto.Message) {
		mu.Lock()
		defer mu.Unlock()
		what := fmt.Sprintf("%s: %s of %T", t.name, world.Text(req), req)
		if beside != nil {
			what += fmt.Sprintf(", with %s of %T at the point %q,", world.Text(beside), beside, point)
		}
		var e *exchange
		for _, g := range got {
			if e == nil && proto.Equal(t.normal(g.req), t.normal(req)) {
				e = g
			}
		}
		if e == nil {
			var l []string
			for _, g := range got {
				l = append(l, world.Text(g.req).String())
			}
			x.Failf("%s did not reach the service; %s did", what, strings.Join(l, " and "))
		}
		x.Assert(!e.changed, "%s changed while it was being served", what)
		x.Assert(t.kind(err) == t.kind(e.err), "%s was answered with error %v, and %v from afar", what, e.err, err)
		x.Assert(world.Equal(plain(resp), plain(e.resp)), "%s was answered %s, and %s from afar", what, world.Text(e.resp), world.Text(resp))
	}
	happened := false
	for _, p := range seen {
		happened = happened || p == point
	}
	if !happened {
		one(a, ar, ae, nil)
		x.Assert(len(got) == 1, "%s: %s reached the service %d times", t.name, world.Text(a), len(got))
		return seen
	}
	<-asked
	x.C.Transition(1)
	one(a, ar, ae, b)
	one(b, br, be, a)
	x.Assert(len(got) == 2, "%s: %s and %s reached the service %d times", t.name, world.Text(a), world.Text(b), len(got))
	return seen
}

// runTransport explores requests and answers of one transport; mk makes one
// client and server for each worker.
func runTransport(c *mck.C, mk func() *transport) {
	pool := sync.Pool{New: func() interface{} { return mk() }}
	with := func(f func(t *transport)) {
		t := pool.Get().(*transport)
		f(t)
		pool.Put(t)
	}
	bs := bases(filledN)
	db := filled()
	// every combination of two parts, others as usual
	c.Explore("requests", func(x *mck.X) {
		b := bs[x.Choose(len(bs), "request")]
		ds := dims(b, filledN)
		i := x.Choose(len(ds), "part")
		vi := x.Choose(ds[i].n, ds[i].name)
		with(func(t *transport) {
			try := func(j, vj int) {
				req := proto.Clone(b)
				ds[i].set(req, vi)
				if j >= 0 {
					ds[j].set(req, vj)
				}
				x.C.State(t.name, fmt.Sprintf("%T", req), world.Text(req))
				t.call(x, db, nil, req)
			}
			try(-1, 0)
			for j := i + 1; j < len(ds); j++ {
				for vj := 0; vj < ds[j].n; vj++ {
					try(j, vj)
				}
			}
		})
		x.C.Trace(1)
	})
	// under a policy: who may do what, and see which fields
	c.Explore("credentials", func(x *mck.X) {
		b := bs[x.Choose(len(bs), "request")]
		ruleKey := apiKeys[x.Choose(len(apiKeys), "key of the rule")]
		key := apiKeys[x.Choose(len(apiKeys), "key of the caller")]
		perms := []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS, pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE}
		pol := &policy.Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: []*pb.AccessPolicy{{ApiKey: ruleKey, NameMatch: "l*", Permissions: perms[x.Choose(len(perms), "permission"):][:1], AllowedFields: []string{[]string{"*", "a"}[x.Choose(2, "fields")]}}}}}}
		req := proto.Clone(b)
		setRef(req, func(a **pb.AccountRef, _ *string, _ *pb.LogType) { *a = &pb.AccountRef{Id: "0", ApiKey: key} })
		with(func(t *transport) { t.call(x, db, pol, req) })
		x.C.Trace(1)
		x.C.Eval(ruleKey == key, "credentials", ruleKey, key)
	})
	// every answer a service may give
	c.Explore("answers", func(x *mck.X) {
		b := bs[x.Choose(len(bs), "request")]
		as := answers(b)
		a := as[x.Choose(len(as), "answer")]
		with(func(t *transport) {
			t.tap.reset(func(proto.Message) (proto.Message, error) {
				if a.err != nil {
					return nil, a.err
				}
				return proto.Clone(a.resp), nil
			})
			resp, err := world.Call(t.service, proto.Clone(b))
			x.C.Transition(1)
			n, _, _, _ := t.tap.got()
			x.Assert(n == 1, "%s: %s reached the service %d times", t.name, world.Text(b), n)
			x.Assert((resp == nil) == (err != nil), "%s: both or neither of %s and %v", t.name, world.Text(resp), err)
			x.Assert(t.kind(err) == t.kind(a.err), "%s: the service answered %T with error %v, the client got %v", t.name, b, a.err, err)
			if a.err == nil {
				x.Assert(world.Equal(plain(resp), plain(a.resp)), "%s: the service answered %T with %s, the client got %s", t.name, b, world.Text(a.resp), world.Text(resp))
			}
			x.C.State(t.name, "answer", fmt.Sprintf("%T", b), world.Text(a.resp), fmt.Sprint(a.err))
		})
		x.C.Trace(1)
	})
	// two at once: one while the other has come to some point of its way
	more := filledMore()
	os := others()
	c.Explore("two at once", func(x *mck.X) {
		i := x.Choose(2*len(bs), "request")
		var a proto.Message
		if i < len(bs) {
			a = bs[i]
		} else {
			a = os[2*(i-len(bs))+1]
		}
		with(func(t *transport) {
			points := t.together(x, more, a, nil, "")
			for j := range os {
				b := os[j]
				if i >= len(bs) {
					b = bs[j/2]
				}
				if i >= len(bs) && j%2 == 1 {
					continue
				}
				for _, p := range points {
					t.together(x, more, a, b, p)
				}
			}
			x.C.State(t.name, "two at once", i)
			x.C.Sample("two at once", "%s: %T, interrupted at %s", t.name, a, strings.Join(points, ", "))
			x.C.Trace(len(os) * len(points))
		})
	})
	// messages of any size there is
	c.Explore("large", func(x *mck.X) {
		large := []int{1 << 12, 1<<16 + 1, 1<<20 - 100, 1<<20 + 1, 2 << 20, 0}
		size := large[x.Choose(len(large), "size")]
		kind := x.Choose(6, "kind")
		with(func(t *transport) {
			if size == 0 {
				size = t.largest
			}
			big := func(n int) []byte {
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(i * (i>>8 + 7))
				}
				return b
			}
			acc := &pb.AccountRef{Id: "0", ApiKey: "key"}
			l, m := &pb.LogRef{Account: acc, Name: "l"}, &pb.MapRef{Account: acc, Name: "l"}
			var req, resp proto.Message
			req = &pb.LogFetchEntriesRequest{Log: l}
			switch kind {
			case 0:
				req, resp = &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: big(size)}}, &pb.LogAddEntryResponse{}
			case 1:
				req, resp = &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: big(size / 2), ExtraData: big(size / 2)}}, &pb.LogAddEntryResponse{}
			case 2:
				req, resp = &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "update", Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte("in"), ExtraData: big(size)}, PreviousLeafHash: ref.Leaf(nil)}}, &pb.MapSetValueResponse{}
			case 3:
				path := make([][]byte, 256)
				path[3] = ref.Leaf(nil)
				req, resp = &pb.MapGetValueRequest{Map: m, Key: []byte("k")}, &pb.MapGetValueResponse{TreeSize: 4, Value: &pb.LeafData{LeafInput: big(size / 3), ExtraData: big(size / 3)}, AuditPath: path}
			case 4:
				resp = &pb.LogFetchEntriesResponse{Values: []*pb.LeafData{{LeafInput: big(size)}}}
			case 5:
				r := &pb.LogFetchEntriesResponse{}
				for i := 0; i < size/1000; i++ {
					r.Values = append(r.Values, &pb.LeafData{LeafInput: big(i % 7 * 10), ExtraData: big(900 - i%7*10)})
				}
				resp = r
			}
			t.tap.reset(func(proto.Message) (proto.Message, error) { return proto.Clone(resp), nil })
			got, err := world.Call(t.service, req)
			n, arrived, _, _ := t.tap.got()
			x.C.Transition(1)
			x.Assert(err == nil && n == 1, "%s: a %T of %d bytes, and an answer of %d, reached the service %d times, and got %v", t.name, req, proto.Size(req), proto.Size(resp), n, err)
			x.Assert(proto.Equal(arrived, req), "%s: a %T of %d bytes arrived as another of %d", t.name, req, proto.Size(req), proto.Size(arrived))
			x.Assert(world.Equal(plain(got), plain(resp)), "%s: an answer to %T of %d bytes arrived as another of %d", t.name, req, proto.Size(resp), proto.Size(got))
			x.C.State(t.name, "large", size, kind)
			x.C.Eval(true, "large", size, kind)
		})
		x.C.Trace(1)
	})
	// sequences, as nothing may be left over from one call to the next
	c.Explore("sequences", func(x *mck.X) {
		with(func(t *transport) {
			db := &world.Store{}
			s := world.On(db, policy.Open)
			for i := 0; i < c.Pick(3, 4); i++ {
				acc := &pb.AccountRef{Id: "0", ApiKey: []string{"", "k"}[i%2]}
				l := &pb.LogRef{Account: acc, Name: "l", LogType: ltLog}
				m := &pb.MapRef{Account: acc, Name: "l"}
				var req proto.Message
				switch x.Choose(9, "request") {
				case 0:
					req = &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{LeafInput: []byte{byte(i)}, ExtraData: []byte("x")}}
				case 1:
					req = &pb.LogAddEntryRequest{Log: l, Value: &pb.LeafData{}}
				case 2:
					req = &pb.LogFetchEntriesRequest{Log: l}
				case 3:
					req = &pb.LogTreeHashRequest{Log: l}
				case 4:
					req = &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: world.Leaf(fmt.Sprint("v", i%2), "x")}}
				case 5:
					req = &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "update", Key: []byte("k"), Value: &pb.LeafData{LeafInput: []byte("u")}, PreviousLeafHash: ref.Leaf([]byte("v0"))}}
				case 6:
					req = &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "delete", Key: []byte("k")}}
				case 7:
					req = &pb.MapGetValueRequest{Map: m, Key: []byte("k")}
				case 8:
					req = &pb.MapTreeHashRequest{Map: m}
				}
				t.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
				resp, err := world.Call(t.service, req)
				n, got, ir, ie := t.tap.got()
				x.C.Transition(1)
				x.Assert(n == 1 && proto.Equal(t.normal(got), t.normal(req)), "%s: %s reached the service %d times, as %s", t.name, world.Text(req), n, world.Text(got))
				x.Assert(t.kind(err) == t.kind(ie) && world.Equal(plain(resp), plain(ir)), "%s: %s was answered %s %v, and %s %v from afar", t.name, world.Text(req), world.Text(ir), ie, world.Text(resp), err)
			}
		})
		x.C.Trace(1)
	})
}

type answer struct {
	resp proto.Message
	err  error
}

func leaves() []*pb.LeafData {
	var rv []*pb.LeafData
	for _, v := range values() {
		if v != nil {
			rv = append(rv, v)
		}
	}
	for i := 0; i < 256; i++ {
		rv = append(rv, &pb.LeafData{LeafInput: []byte{byte(i), 1}, ExtraData: []byte{2, byte(i), 3}, Format: pb.DataFormat(i % 3)})
	}
	return rv
}

// answers to a kind of request that a service may give.
func answers(req proto.Message) []answer {
	var rv []answer
	for c := codes.Code(1); c <= 16; c++ {
		rv = append(rv, answer{err: status.Error(c, "why\nnot")})
	}
	rv = append(rv, answer{err: errors.New("plain")})
	var paths [][][]byte
	for n := 0; n <= 64; n++ {
		var p [][]byte
		for i := 0; i < n; i++ {
			p = append(p, ref.Leaf([]byte{byte(n), byte(i)}))
		}
		paths = append(paths, p)
	}
	hashes := [][]byte{nil, ref.Leaf(nil), bytes.Repeat([]byte{0}, 32), bytes.Repeat([]byte{255}, 32)}
	nums := []int64{0, 1, 2, 255, 256, 1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt64}
	switch req.(type) {
	case *pb.LogAddEntryRequest:
		for _, h := range hashes {
			rv = append(rv, answer{resp: &pb.LogAddEntryResponse{LeafHash: h}})
		}
	case *pb.MapSetValueRequest:
		for _, h := range hashes {
			rv = append(rv, answer{resp: &pb.MapSetValueResponse{LeafHash: h}})
		}
	case *pb.LogFetchEntriesRequest:
		ls := leaves()
		rv = append(rv, answer{resp: &pb.LogFetchEntriesResponse{}}, answer{resp: &pb.LogFetchEntriesResponse{Values: ls}})
		for i := range ls {
			rv = append(rv, answer{resp: &pb.LogFetchEntriesResponse{Values: ls[i : i+1]}}, answer{resp: &pb.LogFetchEntriesResponse{Values: ls[:i]}})
		}
	case *pb.LogTreeHashRequest:
		for _, h := range hashes {
			for _, n := range nums {
				rv = append(rv, answer{resp: &pb.LogTreeHashResponse{TreeSize: n, RootHash: h}})
			}
		}
	case *pb.LogInclusionProofRequest:
		for _, n := range nums {
			for i, p := range paths {
				rv = append(rv, answer{resp: &pb.LogInclusionProofResponse{LeafIndex: nums[i%len(nums)], TreeSize: n, AuditPath: p}})
			}
		}
	case *pb.LogConsistencyProofRequest:
		for _, n := range nums {
			for i, p := range paths {
				rv = append(rv, answer{resp: &pb.LogConsistencyProofResponse{FromSize: nums[i%len(nums)], TreeSize: n, AuditPath: p}})
			}
		}
	case *pb.MapTreeHashRequest:
		for _, h := range hashes {
			for _, n := range nums {
				rv = append(rv, answer{resp: &pb.MapTreeHashResponse{RootHash: h, MutationLog: &pb.LogTreeHashResponse{TreeSize: n, RootHash: h}}}, answer{resp: &pb.MapTreeHashResponse{RootHash: h}})
			}
		}
	case *pb.MapGetValueRequest:
		// every single element, none, all, all up to each, and every other
		path := func(f func(i int) bool) [][]byte {
			p := make([][]byte, 256)
			for i := range p {
				if f(i) {
					p[i] = ref.Leaf([]byte{byte(i)})
				}
			}
			return p
		}
		ls := leaves()
		for k := 0; k <= 256; k++ {
			k := k
			v := ls[k%len(ls)]
			rv = append(rv, answer{resp: &pb.MapGetValueResponse{TreeSize: nums[k%len(nums)], Value: v, AuditPath: path(func(i int) bool { return i == k })}},
				answer{resp: &pb.MapGetValueResponse{TreeSize: nums[k%len(nums)], Value: v, AuditPath: path(func(i int) bool { return i < k })}})
		}
		for _, v := range ls {
			rv = append(rv, answer{resp: &pb.MapGetValueResponse{TreeSize: 5, Value: v, AuditPath: path(func(i int) bool { return i%2 == 1 })}})
		}
	}
	return rv
}
