package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/continusec/objecthash"
	"google.golang.org/protobuf/proto"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/liar"
	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// weird are JSON values for any place.
var weird = []string{`null`, `true`, `0`, `-1`, `1.5`, `7`, `9223372036854775807`, `-9223372036854775808`, `18446744073709551616`, `1e400`, `""`, `"x"`, `"AA=="`, `"AA"`, `"set"`, `"é\u0000"`, `"\ud800"`,
	`"**REDACTED**"`, `"**REDACTED**` + strings.Repeat("0f", 32) + `"`, `[]`, `[null]`, `["n",1]`, `["nonce",null]`, `["a","b","c"]`, `[[[[]]]]`, `{}`, `{"":null}`, `{"leaf_input":1}`, `{"**REDACTED**":[]}`,
	strings.Repeat("[", 3000) + strings.Repeat("]", 3000), strings.Repeat(`{"value":`, 3000) + `1` + strings.Repeat("}", 3000)}

// variations of a JSON document: each node replaced by each weird value, each
// field left out, given twice, or joined by unknown ones.
func variations(doc []byte) []string {
	var o interface{}
	must(json.Unmarshal(doc, &o))
	var rv []string
	// print writes o with the node at the path replaced
	var print func(b *strings.Builder, o interface{}, at int, cur *int, with string, extra bool)
	print = func(b *strings.Builder, o interface{}, at int, cur *int, with string, extra bool) {
		me := *cur
		*cur++
		if me == at && !extra {
			b.WriteString(with)
			return
		}
		switch o := o.(type) {
		case map[string]interface{}:
			b.WriteString("{")
			first := true
			keys := make([]string, 0, len(o))
			for k := range o {
				keys = append(keys, k)
			}
			sortStrings(keys)
			for _, k := range keys {
				var sub strings.Builder
				print(&sub, o[k], at, cur, with, extra)
				if sub.String() == "<omit>" {
					continue
				}
				if !first {
					b.WriteString(",")
				}
				first = false
				kb, _ := json.Marshal(k)
				b.Write(kb)
				b.WriteString(":")
				if strings.HasPrefix(sub.String(), "<twice>") {
					v, _ := json.Marshal(o[k])
					b.Write(v)
					b.WriteString(",")
					b.Write(kb)
					b.WriteString(":" + strings.TrimPrefix(sub.String(), "<twice>"))
					continue
				}
				b.WriteString(sub.String())
			}
			if me == at && extra {
				if !first {
					b.WriteString(",")
				}
				b.WriteString(`"unknown":` + with)
			}
			b.WriteString("}")
		case []interface{}:
			b.WriteString("[")
			for i, e := range o {
				var sub strings.Builder
				print(&sub, e, at, cur, with, extra)
				if sub.String() == "<omit>" {
					continue
				}
				if i > 0 {
					b.WriteString(",")
				}
				b.WriteString(strings.TrimPrefix(sub.String(), "<twice>"))
			}
			if me == at && extra {
				if len(o) > 0 {
					b.WriteString(",")
				}
				b.WriteString(with)
			}
			b.WriteString("]")
		default:
			v, _ := json.Marshal(o)
			b.Write(v)
		}
	}
	n := 0
	print(&strings.Builder{}, o, -1, &n, "", false)
	for at := 0; at < n; at++ {
		for _, w := range append([]string{"<omit>", "<twice>null", "<twice>[]"}, weird...) {
			if at == 0 && strings.HasPrefix(w, "<") {
				continue
			}
			var b strings.Builder
			cur := 0
			print(&b, o, at, &cur, w, false)
			rv = append(rv, b.String())
		}
		for _, w := range []string{`null`, `[1e400]`, `{"a":{}}`} {
			var b strings.Builder
			cur := 0
			print(&b, o, at, &cur, w, true)
			rv = append(rv, b.String())
		}
	}
	return rv
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// neither says whether a call gave neither a result nor an error.
type outcome struct {
	some bool
	err  error
}

// clientCalls is every call of the client library that gets answers from a
// server.
type clientCall struct {
	name string
	run  func(s world.Service) outcome
}

// known to the client: heads of the honest service
type held struct {
	heads  []*pb.LogTreeHashResponse // of log l, by size
	muts   []*pb.LogTreeHashResponse
	states []*verifiable.MapTreeState
	proofs []*pb.LogInclusionProofResponse
}

var holding = sync.OnceValue(func() *held {
	s := world.On(filled().Clone(), policy.Open)
	l, m := world.Log(s, "l"), world.Map(s, "l")
	h := &held{heads: []*pb.LogTreeHashResponse{{}}, muts: []*pb.LogTreeHashResponse{{}}, states: []*verifiable.MapTreeState{nil}}
	for i := int64(1); i <= filledN; i++ {
		a, err := l.TreeHead(ctx, i)
		must(err)
		b, err := m.MutationLog().TreeHead(ctx, i)
		must(err)
		st, err := m.VerifiedMapState(ctx, nil, i)
		must(err)
		p, err := l.InclusionProofByIndex(ctx, filledN, i-1)
		must(err)
		h.heads, h.muts, h.states, h.proofs = append(h.heads, a), append(h.muts, b), append(h.states, st), append(h.proofs, p)
	}
	return h
})

func clientCalls() []clientCall {
	h := holding()
	var rv []clientCall
	add := func(name string, run func(s world.Service) (bool, error)) {
		rv = append(rv, clientCall{name, func(s world.Service) outcome { ok, err := run(s); return outcome{ok, err} }})
	}
	e1 := ref.Leaf([]byte("e1"))
	add("log tree head", func(s world.Service) (bool, error) {
		v, err := world.Log(s, "l").TreeHead(ctx, 3)
		return v != nil, err
	})
	add("log inclusion proof", func(s world.Service) (bool, error) {
		v, err := world.Log(s, "l").InclusionProof(ctx, 6, e1)
		return v != nil, err
	})
	add("log inclusion proof by index", func(s world.Service) (bool, error) {
		v, err := world.Log(s, "l").InclusionProofByIndex(ctx, 6, 3)
		return v != nil, err
	})
	add("log consistency proof", func(s world.Service) (bool, error) {
		v, err := world.Log(s, "l").ConsistencyProof(ctx, 3, 6)
		return v != nil, err
	})
	add("log entry", func(s world.Service) (bool, error) {
		v, err := world.Log(s, "l").Entry(ctx, 2)
		return true, errOr(v, err)
	})
	add("log entries", func(s world.Service) (bool, error) {
		n := 0
		for range world.Log(s, "l").Entries(ctx, 1, 6) {
			n++
		}
		return true, nil
	})
	add("add to log", func(s world.Service) (bool, error) {
		v, err := world.Log(s, "l").Add(ctx, world.Leaf("n", ""))
		if err == nil {
			v.LeafHash()
		}
		return v != nil, err
	})
	add("set in map", func(s world.Service) (bool, error) {
		v, err := world.Map(s, "l").Set(ctx, []byte("k"), world.Leaf("n", ""))
		return v != nil, err
	})
	add("map tree head", func(s world.Service) (bool, error) {
		v, err := world.Map(s, "l").TreeHead(ctx, 3)
		return v != nil, err
	})
	add("map get", func(s world.Service) (bool, error) {
		v, err := world.Map(s, "l").Get(ctx, []byte("k0"), 6)
		return v != nil, err
	})
	for _, p := range []int{0, 1, 3, 4, 6} {
		for _, to := range []int64{-1, 0, 2, 6} {
			p, to := p, to
			var prev *pb.LogTreeHashResponse
			if p > 0 {
				prev = h.heads[p]
			}
			add(fmt.Sprintf("verified log tree head %d after %d", to, p), func(s world.Service) (bool, error) {
				var v *pb.LogTreeHashResponse
				var err error
				if to < 0 {
					v, err = world.Log(s, "l").VerifiedLatestTreeHead(ctx, prev)
				} else {
					v, err = world.Log(s, "l").VerifiedTreeHead(ctx, prev, to)
				}
				return v != nil, err
			})
			add(fmt.Sprintf("verified map state %d after %d", to, p), func(s world.Service) (bool, error) {
				var err error
				if to < 0 {
					_, err = world.Map(s, "l").VerifiedLatestMapState(ctx, h.states[p])
				} else {
					_, err = world.Map(s, "l").VerifiedMapState(ctx, h.states[p], to)
				}
				return true, err // an empty map has no state
			})
		}
		p := p
		add(fmt.Sprintf("supplied inclusion proof after %d", p), func(s world.Service) (bool, error) {
			var prev *pb.LogTreeHashResponse
			if p > 0 {
				prev = h.heads[p]
			}
			v, err := world.Log(s, "l").VerifySuppliedInclusionProof(ctx, prev, h.proofs[1], e1)
			return v != nil, err
		})
		for _, to := range []int{1, 3, 6} {
			to := to
			add(fmt.Sprintf("verify consistency of %d and %d", p, to), func(s world.Service) (bool, error) {
				return true, world.Log(s, "l").VerifyConsistency(ctx, h.heads[p], h.heads[to])
			})
			add(fmt.Sprintf("verify log entries from %d to %d", p, to), func(s world.Service) (bool, error) {
				var prev *pb.LogTreeHashResponse
				if p > 0 {
					prev = h.heads[p]
				}
				return true, world.Log(s, "l").VerifyEntries(ctx, prev, h.heads[to], func(ctx context.Context, _ int64, e *pb.LeafData) error {
					verifiable.ValidateJSONLeafData(ctx, e)
					return nil
				})
			})
			add(fmt.Sprintf("verify mutation log entries from %d to %d", p, to), func(s world.Service) (bool, error) {
				var prev *pb.LogTreeHashResponse
				if p > 0 {
					prev = h.muts[p]
				}
				return true, world.Map(s, "l").MutationLog().VerifyEntries(ctx, prev, h.muts[to], func(_ context.Context, _ int64, e *pb.LeafData) error {
					return verifiable.ValidateJSONLeafDataFromMutation(e)
				})
			})
			add(fmt.Sprintf("audit map from %d to %d", p, to), func(s world.Service) (bool, error) {
				return true, world.Map(s, "l").VerifyMap(ctx, h.states[p], h.states[to], func(ctx context.Context, e *pb.LeafData) error {
					verifiable.ValidateJSONLeafData(ctx, e)
					return nil
				}, func(context.Context, int64, []byte, *pb.LeafData) error { return nil })
			})
		}
	}
	add("verify inclusion", func(s world.Service) (bool, error) {
		return true, world.Log(s, "l").VerifyInclusion(ctx, h.heads[6], e1)
	})
	add("verify inclusion in one", func(s world.Service) (bool, error) {
		return true, world.Log(s, "l").VerifyInclusion(ctx, h.heads[1], ref.Leaf([]byte("e0")))
	})
	for _, k := range []string{"k0", "k2", "absent"} {
		k := k
		add("verified get of "+k, func(s world.Service) (bool, error) {
			_, err := world.Map(s, "l").VerifiedGet(ctx, []byte(k), h.states[6])
			return true, err // no data and empty data are the same message
		})
	}
	return rv
}

func errOr(v *pb.LeafData, err error) error { return err }

// hostile answers to a request.
func hostile(_ string, req proto.Message, base liar.Alt) []liar.Alt {
	alts := []liar.Alt{{What: "failure", Err: errors.New("no")}}
	if base.Resp == nil {
		return alts
	}
	alts = append(alts, liar.Alt{What: "an empty answer", Resp: base.Resp.ProtoReflect().New().Interface()})
	long := func(n int) []byte { return bytes.Repeat([]byte{7}, n) }
	strs := [][]byte{{}, []byte("null"), []byte("{}"), []byte("[]"), []byte(`{"value":null}`), []byte(`{"mutation_log":{}}`), []byte(`{"mutation_log":null,"root_hash":7}`), []byte(`{"action":"set"}`), []byte(strings.Repeat("[", 20000)), {0xff}, long(31), long(33), long(100000)}
	idx := func(n int) []int {
		if n < 12 {
			rv := make([]int, n)
			for i := range rv {
				rv[i] = i
			}
			return rv
		}
		return []int{0, 1, n / 2, n - 2, n - 1}
	}
	alts = append(alts, liar.Perturb(base.Resp, liar.Opts{Nil: true, Indexes: idx, Strings: strs})...)
	add := func(what string, m proto.Message) { alts = append(alts, liar.Alt{What: what, Resp: m}) }
	nums := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, -2, 2, 3, 1 << 31, 1<<31 - 1, 1 << 32, 1<<53 + 1, 1<<62 + 1, math.MaxInt64 - 1}
	switch r := base.Resp.(type) {
	case *pb.LogTreeHashResponse:
		for _, n := range nums {
			add(fmt.Sprint("size ", n), &pb.LogTreeHashResponse{TreeSize: n, RootHash: r.RootHash})
		}
	case *pb.LogInclusionProofResponse:
		for _, n := range nums {
			for _, i := range []int64{r.LeafIndex, n - 1, n} {
				add(fmt.Sprintf("index %d of %d", i, n), &pb.LogInclusionProofResponse{TreeSize: n, LeafIndex: i, AuditPath: r.AuditPath})
			}
		}
	case *pb.LogConsistencyProofResponse:
		for _, n := range nums {
			for _, i := range []int64{r.FromSize, n - 1, n} {
				add(fmt.Sprintf("from %d to %d", i, n), &pb.LogConsistencyProofResponse{TreeSize: n, FromSize: i, AuditPath: r.AuditPath})
			}
		}
	case *pb.LogFetchEntriesResponse:
		for _, n := range []int{7, 600} {
			c := proto.Clone(r).(*pb.LogFetchEntriesResponse)
			for i := 0; i < n; i++ {
				c.Values = append(c.Values, world.Leaf("more", ""))
			}
			add(fmt.Sprintf("%d more entries", n), c)
		}
	case *pb.MapGetValueResponse:
		for _, n := range []int{0, 1, 255, 257, 1000} {
			c := proto.Clone(r).(*pb.MapGetValueResponse)
			c.AuditPath = nil
			for i := 0; i < n; i++ {
				c.AuditPath = append(c.AuditPath, ref.Leaf(nil))
			}
			add(fmt.Sprintf("a path of %d", n), c)
		}
	}
	return alts
}

func hostileAnswers(c *mck.C) {
	var cache liar.Cache
	calls := clientCalls()
	base := filled()
	mk := func() *liar.Server {
		s := world.On(base.Clone(), policy.Open)
		return &liar.Server{MaxCalls: 60, Base: func(_ string, req proto.Message) liar.Alt {
			resp, err := world.Call(s, req)
			return liar.Alt{What: "the honest answer", Resp: resp, Err: err}
		}, Menu: hostile}
	}
	for _, budget := range []int{1, 2} {
		budget := budget
		if budget == 2 && c.Quick() {
			// pairs of deviations of the first of each kind of call only
			var some []clientCall
			for _, k := range calls {
				if strings.Contains(k.name, "3 after 4") || strings.Contains(k.name, "0 after 3") || k.name == "verify consistency of 3 and 6" || k.name == "verify inclusion" || strings.HasPrefix(k.name, "verified get") || strings.HasSuffix(k.name, "from 4 to 6") {
					some = append(some, k)
				}
			}
			calls = some
		}
		c.Explore(fmt.Sprintf("answers with %d deviations", budget), func(x *mck.X) {
			k := calls[x.Choose(len(calls), "call")]
			x.Logf("%s", k.name)
			cache.Deviate(x, fmt.Sprint(k.name, budget), budget, mk, func(s *liar.Server, check bool) {
				o := k.run(s)
				if check {
					x.Assert(o.some || o.err != nil, "%s gives neither a result nor an error (%v)", k.name, s.Used)
					x.Assert(len(s.Used) > 0 || o.err == nil || strings.HasPrefix(k.name, "verify") || strings.HasPrefix(k.name, "audit") || strings.Contains(k.name, " after ") || strings.Contains(k.name, "get"), "%s fails with an honest server: %v", k.name, o.err)
					x.C.State(k.name, fmt.Sprint(s.Used), fmt.Sprint(o.err))
				}
			})
		})
	}
}

// hostileContents has servers whose logs consistently contain entries with
// malformed contents.
func hostileContents(c *mck.C) {
	honest := world.On(filled().Clone(), policy.Open)
	f := liar.FromService(honest, "l", ltMut, ltHead)
	n := f.N(ltMut)
	var menus = map[pb.LogType][]string{}
	for _, t := range []pb.LogType{ltMut, ltHead} {
		for i := range f.Logs[t] {
			menus[t] = append(menus[t], variations(f.Logs[t][i].ExtraData)...)
		}
		for _, w := range []string{``, ` `, `{`, `nul`, "\xff", "\x00", `{"a":1}{`, `"`, strings.Repeat("[", 20000), strings.Repeat(`{"value":`, 9999)} {
			menus[t] = append(menus[t], w)
		}
		seen := map[string]bool{}
		var u []string
		for _, s := range menus[t] {
			if !seen[s] {
				seen[s] = true
				u = append(u, s)
			}
		}
		menus[t] = u
	}
	positions := []int{0, 3, n - 1}
	c.Explore("malformed contents", func(x *mck.X) {
		t := []pb.LogType{ltMut, ltHead}[x.Choose(2, "log")]
		at := positions[x.Choose(len(positions), "position")]
		doc := menus[t][x.Choose(len(menus[t]), "contents")]
		// all ways that an entry may be taken as genuine
		inputs := [][]byte{f.Logs[t][at].LeafInput}
		var o interface{}
		if json.Unmarshal([]byte(doc), &o) == nil {
			if h, err := objecthash.ObjectHashWithStdRedaction(o); err == nil {
				inputs = append(inputs, h)
			}
		}
		if t == ltMut {
			var mut pb.MapMutation
			if json.Unmarshal([]byte(doc), &mut) == nil {
				if ld, err := verifiable.CreateJSONLeafDataFromMutation(&mut); err == nil {
					inputs = append(inputs, ld.LeafInput)
				}
			}
		}
		for _, in := range inputs {
			g := &liar.Fixed{Name: "a liar", Logs: map[pb.LogType][]*pb.LeafData{ltMut: f.Logs[ltMut], ltHead: f.Logs[ltHead]}}
			es := append([]*pb.LeafData{}, f.Logs[t]...)
			es[at] = &pb.LeafData{LeafInput: in, ExtraData: []byte(doc), Format: pb.DataFormat_JSON}
			g.Logs[t] = es
			s := &liar.Server{Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(g, req) }}
			m := world.Map(planned(s), "l")
			hd := &verifiable.MapTreeState{MapTreeHead: holding().states[n].MapTreeHead, TreeHeadLogTreeHead: g.Head(ltHead, n)}
			for p := 0; p <= at; p += 3 {
				var prev *verifiable.MapTreeState
				if p > 0 {
					prev = &verifiable.MapTreeState{MapTreeHead: holding().states[p].MapTreeHead, TreeHeadLogTreeHead: g.Head(ltHead, p)}
				}
				m.VerifyMap(ctx, prev, hd, verifiable.ValidateJSONLeafData, func(_ context.Context, _ int64, _ []byte, v *pb.LeafData) error {
					verifiable.ShedRedactedJSONFields(v.GetExtraData())
					return nil
				})
				x.C.Transition(1)
			}
			x.C.State("contents", t, at, doc, hex.EncodeToString(in))
			verifiable.ValidateJSONLeafData(ctx, es[at])
			verifiable.ValidateJSONLeafDataFromMutation(es[at])
		}
		// what a client does with leaf data that it gets
		verifiable.ShedRedactedJSONFields([]byte(doc))
		verifiable.CreateJSONLeafData([]byte(doc))
		verifiable.CreateRedactableJSONLeafData([]byte(doc))
		x.C.Trace(1)
	})
}

// planned makes a server ready, without deviations.
func planned(s *liar.Server) *liar.Server { s.Ready(); return s }

// ------------------------------------------------------------ the REST client

// stub answers HTTP requests with one answer.
type stub struct {
	mu    sync.Mutex
	calls int
	do    func(n int, req *http.Request) (*http.Response, error)
}

func (s *stub) RoundTrip(req *http.Request) (*http.Response, error) {
	s.mu.Lock()
	n := s.calls
	s.calls++
	s.mu.Unlock()
	if n > 1000 {
		return nil, errors.New("no more")
	}
	return s.do(n, req)
}

type failing struct {
	io.Reader
	err error
}

func (f *failing) Read(b []byte) (int, error) {
	n, err := f.Reader.Read(b)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func httpAnswer(req *http.Request, status int, h http.Header, body []byte, bodyErr error) *http.Response {
	if req.Body != nil {
		io.Copy(io.Discard, req.Body)
		req.Body.Close()
	}
	var r io.Reader = bytes.NewReader(body)
	if bodyErr != nil {
		r = &failing{r, bodyErr}
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h.Clone(), Body: io.NopCloser(r), ContentLength: -1, Request: req}
}

func rest(rt http.RoundTripper) world.Service {
	s, err := (&httprest.Client{BaseURL: "http://server.example", HTTPClient: &http.Client{Transport: rt}}).Dial()
	must(err)
	return s
}

// wellTyped says what is missing in a message that a transport may not leave
// out.
func wellTyped(m proto.Message) string {
	if r, ok := m.(*pb.LogFetchEntriesResponse); ok {
		for i, v := range r.Values {
			if v == nil {
				return fmt.Sprintf("entry %d is nil", i)
			}
		}
	}
	return ""
}

// sorts are headers that a server may send.
var sorts = http.Header{
	"Accept-Ranges": {"bytes"}, "Age": {"1"}, "Allow": {"GET"}, "Alt-Svc": {"clear"}, "Cache-Control": {"max-age=0"}, "Connection": {"close"}, "Content-Disposition": {"attachment"},
	"Content-Encoding": {"gzip"}, "Content-Language": {"en"}, "Content-Length": {"3"}, "Content-Location": {"/v2/x"}, "Content-Range": {"bytes 0-2/7"}, "Content-Type": {"text/html; charset=utf-16"},
	"Date": {"Thu, 01 Jan 1970 00:00:00 GMT"}, "Etag": {"W/\"1\""}, "Expires": {"0"}, "Last-Modified": {"Thu, 01 Jan 1970 00:00:00 GMT"}, "Link": {"</v2/x>; rel=\"next\""},
	"Proxy-Authenticate": {"Basic"}, "Refresh": {"0"}, "Retry-After": {"0", "1"}, "Set-Cookie": {"a=b"}, "Trailer": {"X-Verified-Proof"}, "Transfer-Encoding": {"chunked"}, "Upgrade": {"h2c"},
	"Vary": {"*"}, "Via": {"1.1 x"}, "Warning": {"110 x"}, "Www-Authenticate": {"Key", "Basic realm=\"x\""}, "X-Ratelimit-Remaining": {"0"}, "X-Verified-Proof": {""}, "X-Verified-Treesize": {"0"},
}

func hostileHTTP(c *mck.C) {
	reqs := bases(filledN)
	// what an honest server answers
	type honest struct {
		header http.Header
		body   []byte
	}
	var hs []honest
	for _, req := range reqs {
		t := &tap{}
		db := filled().Clone()
		svc := world.On(db, policy.Open)
		t.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
		inner := httpTo(httprest.CreateRESTHandler(t, nil, nil))
		var h honest
		world.Call(rest(&stub{do: func(_ int, q *http.Request) (*http.Response, error) {
			resp, err := inner.Transport.RoundTrip(q)
			must(err)
			h.header = resp.Header
			h.body, err = io.ReadAll(resp.Body)
			must(err)
			resp.Body = io.NopCloser(bytes.NewReader(h.body))
			return resp, nil
		}}), req)
		hs = append(hs, h)
		inner.CloseIdleConnections()
	}
	try := func(x *mck.X, i int, what string, do func(n int, q *http.Request) (*http.Response, error)) {
		s := &stub{do: do}
		resp, err := world.Call(rest(s), proto.Clone(reqs[i]))
		x.C.Transition(1)
		x.Assert((resp == nil) == (err != nil), "%T answered with %s gives both or neither of %s and %v", reqs[i], what, world.Text(resp), err)
		x.Assert(s.calls <= 20, "%T answered with %s makes %d requests", reqs[i], what, s.calls)
		if err == nil {
			bad := wellTyped(resp)
			x.Assert(bad == "", "%T answered with %s gives %s", reqs[i], what, bad)
		}
		x.C.State("http", i, what, err == nil)
	}
	with := func(i int, status int, h http.Header, body []byte, bodyErr error) func(int, *http.Request) (*http.Response, error) {
		return func(_ int, q *http.Request) (*http.Response, error) {
			return httpAnswer(q, status, h, body, bodyErr), nil
		}
	}
	c.Explore("HTTP statuses and failures", func(x *mck.X) {
		i := x.Choose(len(reqs), "request")
		v := x.Choose(1000, "status")
		if v > 0 && (v < 100 || v == 101) {
			switch v {
			case 1:
				try(x, i, "a failure", func(int, *http.Request) (*http.Response, error) { return nil, errors.New("connection reset") })
			case 2, 3, 4, 5, 6, 7:
				status := []int{301, 302, 303, 307, 308, 300}[v-2]
				for _, loc := range []string{"", "/", "http://server.example/elsewhere", "http://server.example" + "/v2/account/0/log/l/tree/head", "::", "ftp://x", "//"} {
					loc := loc
					try(x, i, fmt.Sprintf("status %d and location %q", status, loc), with(i, status, http.Header{"Location": {loc}}, hs[i].body, nil))
				}
			case 8:
				try(x, i, "a body that fails", with(i, 200, hs[i].header, hs[i].body, io.ErrUnexpectedEOF))
			case 9:
				try(x, i, "no header", with(i, 200, http.Header{}, hs[i].body, nil))
			case 10:
				try(x, i, "nothing", with(i, 200, http.Header{}, nil, nil))
			default:
				x.Prune()
			}
			x.C.Trace(1)
			return
		}
		if v == 0 {
			v = 999
		}
		try(x, i, fmt.Sprint("status ", v), with(i, v, hs[i].header, hs[i].body, nil))
		try(x, i, fmt.Sprint("status and no body", v), with(i, v, http.Header{}, nil, nil))
		try(x, i, fmt.Sprint("all sorts of headers and status ", v), with(i, v, sorts, hs[i].body, nil))
		both := sorts.Clone()
		for k, vs := range hs[i].header {
			both[k] = vs
		}
		try(x, i, fmt.Sprint("all sorts of headers, the right ones and status ", v), with(i, v, both, hs[i].body, nil))
		x.C.Trace(1)
	})
	var names []string
	for k := range sorts {
		names = append(names, k)
	}
	sortStrings(names)
	c.Explore("HTTP headers", func(x *mck.X) {
		i := x.Choose(len(reqs), "request")
		k := names[x.Choose(len(names), "header")]
		for _, v := range append([]string{"", "0", "-1", "x", "gzip", "chunked", "close", "99999999999999999999", ";", ",", "\xff"}, sorts[k]...) {
			for _, status := range []int{200, 201, 204, 206, 304, 401, 407, 408, 417, 421, 425, 429, 500, 502, 503, 504, 511} {
				h := http.Header{k: {v}}
				try(x, i, fmt.Sprintf("%s: %q and status %d", k, v, status), with(i, status, h, hs[i].body, nil))
				for k, vs := range hs[i].header {
					h[k] = vs
				}
				h[k] = []string{v}
				try(x, i, fmt.Sprintf("%s: %q, the right ones and status %d", k, v, status), with(i, status, h, hs[i].body, nil))
			}
		}
		x.C.Trace(1)
	})
	alphabet := []byte("\"{}[]:,0-9eE.+n\\utAz=/ \x00\x1f\x7f\xff\xc0")
	c.Explore("mangled HTTP bodies", func(x *mck.X) {
		i := x.Choose(len(reqs), "request")
		b := hs[i].body
		max := len(b)
		if c.Quick() && max > 700 {
			max = 700
		}
		p := x.Choose(max+1, "position")
		try(x, i, fmt.Sprintf("the first %d bytes", p), with(i, 200, hs[i].header, b[:p], nil))
		try(x, i, fmt.Sprintf("the first %d bytes and a failure", p), with(i, 200, hs[i].header, b[:p], io.ErrUnexpectedEOF))
		if p < len(b) {
			try(x, i, fmt.Sprintf("all but byte %d", p), with(i, 200, hs[i].header, append(append([]byte{}, b[:p]...), b[p+1:]...), nil))
		}
		for _, ch := range alphabet {
			ins := append(append(append([]byte{}, b[:p]...), ch), b[p:]...)
			try(x, i, fmt.Sprintf("%q inserted at %d", ch, p), with(i, 200, hs[i].header, ins, nil))
			if p < len(b) {
				sub := append([]byte{}, b...)
				sub[p] = ch
				try(x, i, fmt.Sprintf("%q at %d", ch, p), with(i, 200, hs[i].header, sub, nil))
			}
		}
		x.C.Trace(1)
	})
	docs := make([][]string, len(reqs))
	for i := range reqs {
		docs[i] = weird
		if json.Valid(hs[i].body) { // else an entry's own bytes, or a failure
			docs[i] = append(variations(hs[i].body), weird...)
		}
	}
	c.Explore("other JSON in HTTP bodies", func(x *mck.X) {
		i := x.Choose(len(reqs), "request")
		d := docs[i][x.Choose(len(docs[i]), "document")]
		try(x, i, d, with(i, 200, hs[i].header, []byte(d), nil))
		x.C.Trace(1)
	})
	// the proof and size headers
	sz := []string{"", "6", "0", "-1", "06", " 6 ", "6.0", "x", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "1e3", "6,7", "6\x00", "\xff"}
	h32 := hex.EncodeToString(ref.Leaf(nil))
	var proofs []string
	for _, l := range []string{"", "0", "1", "255", "256", "257", "-1", "-9223372036854775808", "9223372036854775807", "99999999999999999999", "x", "0x1", "1.0", " 3 ", "+4", "00"} {
		for _, v := range []string{"", "0", "zz", h32, h32[:63], h32 + "00", h32 + ";", " " + h32 + " ", strings.ToUpper(h32), strings.Repeat("ab", 50000), "/", "/" + h32} {
			proofs = append(proofs, l+"/"+v)
		}
	}
	proofs = append(proofs, "", "/", ",", ",,,", "0", h32, "0/"+h32+",0/"+h32, "0/"+h32+", 1/"+h32+" ,, 255/"+h32, "\xff", strings.Repeat("0/"+h32+",", 2000), strings.Repeat(",", 100000), strings.Repeat("/", 10000))
	c.Explore("proof headers", func(x *mck.X) {
		i := len(reqs) - 2
		if _, ok := reqs[i].(*pb.MapGetValueRequest); !ok {
			panic("mck: not a get")
		}
		v := x.Choose(len(proofs), "header")
		w := x.Choose(len(proofs)+1, "second header")
		s := x.Choose(len(sz), "size")
		if v > w && w < len(proofs) && c.Quick() {
			x.Prune()
		}
		if s > 0 && s != 1 && w < len(proofs) {
			x.Prune()
		}
		h := http.Header{"X-Verified-Treesize": {sz[s]}, "X-Verified-Proof": {proofs[v]}}
		if w < len(proofs) {
			h["X-Verified-Proof"] = append(h["X-Verified-Proof"], proofs[w])
		}
		if s == 0 {
			delete(h, "X-Verified-Treesize")
		}
		try(x, i, fmt.Sprintf("header %d %d %d", v, w, s), with(i, 200, h, hs[i].body, nil))
		x.C.Trace(1)
	})
	// verifying calls over the REST client, with one bad HTTP answer
	calls := clientCalls()
	base := filled()
	handlers := sync.Pool{New: func() interface{} {
		t := &tap{}
		return &viaHTTP{t, httpTo(httprest.CreateRESTHandler(t, nil, nil)).Transport}
	}}
	bad := append([]string{``, `{"values":[null]}`, `{"values":[null,null,null]}`, `{"audit_path":[null]}`, `{"audit_path":null,"tree_size":6}`, `{"mutation_log":null}`, `{"root_hash":null,"mutation_log":{}}`, `{"leaf_input":null}`, `{"tree_size":6}`, `{"tree_size":-6}`, `{"leaf_hash":[]}`}, weird...)
	c.Explore("calls over HTTP", func(x *mck.X) {
		k := calls[x.Choose(len(calls), "call")]
		v := handlers.Get().(*viaHTTP)
		svc := world.On(base.Clone(), policy.Open)
		v.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
		// how many requests there are
		count := &stub{do: func(_ int, q *http.Request) (*http.Response, error) { return v.rt.RoundTrip(q) }}
		o := k.run(rest(count))
		x.Assert(o.some || o.err != nil, "%s gives neither a result nor an error", k.name)
		for at := 0; at < count.calls; at++ {
			for _, b := range bad {
				s := &stub{}
				s.do = func(n int, q *http.Request) (*http.Response, error) {
					if n != at {
						return v.rt.RoundTrip(q)
					}
					return httpAnswer(q, 200, http.Header{"X-Verified-Treesize": {"6"}}, []byte(b), nil), nil
				}
				svc = world.On(base.Clone(), policy.Open)
				o := k.run(rest(s))
				x.C.Transition(s.calls)
				x.Assert(o.some || o.err != nil, "%s with request %d answered %s gives neither a result nor an error", k.name, at, b)
				x.Assert(s.calls < 60, "%s with request %d answered %s does not stop", k.name, at, b)
				x.C.State("over HTTP", k.name, at, b, o.err == nil)
			}
		}
		handlers.Put(v)
		x.C.Trace(1)
	})
}

type viaHTTP struct {
	tap *tap
	rt  http.RoundTripper
}

func init() {
	mck.Register(mck.Check{
		ID:   "C02",
		Rule: "every call of the client library and REST client, with every element of a menu of malformed answers in every position (pairs of them for some calls, for all in the thorough tier), every single malformed content of audited logs, and every mangled HTTP answer, returns a result or an error in bounded time without panicking",
		Assumptions: []string{
			"helpers that poll until something has happened (BlockUntilPresent, BlockUntilSize, Wait) are meant to wait",
			"a service answers with a message or an error, as the transports do",
		},
		Budget:         200 * time.Second,
		ThoroughBudget: 800 * time.Second,
		Run: func(c *mck.C) {
			hostileContents(c)
			hostileAnswers(c)
			hostileHTTP(c)
		},
	})
}
