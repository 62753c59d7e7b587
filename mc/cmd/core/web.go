package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"golang.org/x/net/context"
	"google.golang.org/protobuf/proto"

	"verifmc/browser"
	"verifmc/liar"
	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "W01", Run: runW01, Budget: 200 * time.Second, ThoroughBudget: 800 * time.Second, MaxRun: 120e9,
		Rule: "the served continusec.js runs in node; every verifying call of it with every previous state of a history, against servers that answer each request from that history or a fork of it, at any nearby size, with any single deviation of a field or of a JSON value, or several of those; its proof verifiers with every single deviation of honest proofs, and with numbers that only JSON has",
		Assumptions: []string{
			"SHA-256 is collision free",
			"with no previous state any self-consistent history is acceptable",
			"node and the stand-in for XMLHttpRequest behave as a browser does",
		}})
}

// webServer is the REST API over a service that can be replaced.
type webServer struct {
	world.Service
	h http.Handler
}

func (w *webServer) LogAddEntry(c context.Context, r *pb.LogAddEntryRequest) (*pb.LogAddEntryResponse, error) {
	return w.Service.LogAddEntry(c, r)
}

var webServers = sync.Pool{New: func() interface{} {
	w := &webServer{}
	w.h = httprest.CreateRESTHandler(w, nil, nil)
	return w
}}

// web runs a call of the browser client against a service.
func web(x *mck.X, s world.Service, code string, args interface{}, waits int) *browser.Outcome {
	return webVia(x, s, code, args, waits, func(_ *browser.Request, do func() *browser.Answer) *browser.Answer { return do() })
}

// webVia lets answers be altered on the way.
func webVia(x *mck.X, s world.Service, code string, args interface{}, waits int, alter func(r *browser.Request, do func() *browser.Answer) *browser.Answer) *browser.Outcome {
	w := webServers.Get().(*webServer)
	defer webServers.Put(w)
	w.Service = s
	serve := browser.Handle(w.h)
	o, err := browser.Run(func(r *browser.Request) *browser.Answer {
		return alter(r, func() *browser.Answer { return serve(r) })
	}, browser.Code(code), args, waits)
	if err != nil {
		x.Failf("%v", err)
	}
	return o
}

type args map[string]interface{}

// numbers are what a JSON number may be turned into.
func numbers(n json.Number) []string {
	var rv []string
	i, err := n.Int64()
	if err != nil {
		return []string{"0"}
	}
	for _, d := range []int64{-1, 1, 1 << 31, -1 << 31, 1 << 32, 1 << 33, -1 << 32, 1 << 53, 1<<62 + 1<<61} {
		rv = append(rv, fmt.Sprint(i+d))
	}
	for _, f := range []string{".5", ".25", ".9999999999999999999999", "e0", "e1", "e-1", "e400"} {
		rv = append(rv, fmt.Sprint(i)+f)
	}
	rv = append(rv, fmt.Sprintf("%q", fmt.Sprint(i)), fmt.Sprintf("%q", fmt.Sprintf("0x%x", i)), fmt.Sprintf("[%d]", i), fmt.Sprintf("[%q]", fmt.Sprint(i)), fmt.Sprint(-i), "null", "true", `""`, `"x"`, "{}", "1e400", "-1e400")
	return rv
}

// jsonAlts are single deviations of a JSON document; numbers, and fields that
// are left out, are what other places don't have.
func jsonAlts(doc []byte) [][]byte {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	var o interface{}
	if d.Decode(&o) != nil {
		return nil
	}
	var rv [][]byte
	// walk calls put with documents that have the place altered
	var walk func(o interface{}, put func(s string))
	walk = func(o interface{}, put func(s string)) {
		switch o := o.(type) {
		case map[string]interface{}:
			var keys []string
			for k := range o {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			with := func(name, s string) string {
				var p []string
				for _, k := range keys {
					v, _ := json.Marshal(o[k])
					if k == name {
						if s == "" {
							continue
						}
						v = []byte(s)
					}
					p = append(p, fmt.Sprintf("%q:%s", k, v))
				}
				if s != "" && o[name] == nil {
					p = append(p, fmt.Sprintf("%q:%s", name, s))
				}
				return "{" + strings.Join(p, ",") + "}"
			}
			for _, k := range keys {
				k := k
				put(with(k, ""))
				walk(o[k], func(s string) { put(with(k, s)) })
			}
			for _, k := range []string{"tree_size", "leaf_index", "from_size"} {
				if o[k] == nil {
					for _, s := range []string{"1", "0.5", "4294967296", `"0"`, "-1"} {
						put(with(k, s))
					}
				}
			}
		case []interface{}:
			if len(o) > 20 {
				return
			}
			with := func(at int, s string) string {
				var p []string
				for i := range o {
					v, _ := json.Marshal(o[i])
					if i == at {
						if s == "" {
							continue
						}
						v = []byte(s)
					}
					p = append(p, string(v))
				}
				if at == len(o) {
					p = append(p, s)
				}
				return "[" + strings.Join(p, ",") + "]"
			}
			for i := range o {
				i := i
				put(with(i, ""))
				walk(o[i], func(s string) { put(with(i, s)) })
			}
			put(with(len(o), `""`))
			put(with(len(o), "null"))
			put("null")
			put(`""`)
			put("{}")
			put(`{"length":0}`)
			put(`{"length":-1}`)
		case json.Number:
			for _, n := range numbers(o) {
				put(n)
			}
		case string:
			put("null")
			put(`""`)
			put(`"AA=="`)
			put("[]")
			put("{}")
			put("true")
			put(fmt.Sprintf("[%q]", o))
			put(fmt.Sprintf("%q", " "+o))
		}
	}
	walk(o, func(s string) { rv = append(rv, []byte(s)) })
	return rv
}

// webAlter has a server alter its answers as JSON.
func webAlter(s *liar.Server) func(r *browser.Request, do func() *browser.Answer) *browser.Answer {
	return func(r *browser.Request, do func() *browser.Answer) *browser.Answer {
		seg := strings.Split(strings.TrimPrefix(r.URL, "http://server.example"), "/")
		var stream []string
		for _, p := range seg {
			if p != "" && (p[0] < '0' || p[0] > '9') {
				stream = append(stream, p)
			}
		}
		w := do()
		a := s.Decide("JSON of "+strings.Join(stream, " "), r.URL, func() liar.Alt {
			return liar.Alt{What: "as it is", HTTP: &liar.HTTP{Status: w.Status, Header: w.Header, Body: w.Body}}
		}, func(base liar.Alt) []liar.Alt {
			var rv []liar.Alt
			if base.HTTP.Status != 200 {
				return nil
			}
			for _, d := range jsonAlts(base.HTTP.Body) {
				rv = append(rv, liar.Alt{What: fmt.Sprintf("%.300s", d), HTTP: &liar.HTTP{Status: 200, Header: base.HTTP.Header, Body: d}})
			}
			if p := base.HTTP.Header["X-Verified-Treesize"]; len(p) == 1 {
				for _, n := range append(numbers(json.Number(p[0])), p[0]+", "+p[0], "0x"+p[0], "", p[0]+",") {
					h := base.HTTP.Header.Clone()
					h["X-Verified-Treesize"] = []string{n}
					rv = append(rv, liar.Alt{What: "size " + n, HTTP: &liar.HTTP{Status: 200, Header: h, Body: base.HTTP.Body}})
				}
			}
			return rv
		})
		if a.HTTP == nil {
			return &browser.Answer{Failed: true}
		}
		return &browser.Answer{Status: a.HTTP.Status, Header: a.HTTP.Header, Body: a.HTTP.Body}
	}
}

const (
	webHeads = `
var l = Log(args.log);
if (args.size < 0) { l.getVerifiedLatestTreeHead(Head(args.prev), S, F); } else { l.getVerifiedTreeHead(Head(args.prev), args.size, S, F); }`
	webConsistency = `Log(args.log).verifyConsistency(Head(args.a), Head(args.b), S, F);`
	webInclusion   = `Log(args.log).verifyInclusion(Head(args.a), Leaf(args.leaf), S, F);`
	webSupplied    = `Log(args.log).verifySuppliedInclusionProof(Head(args.prev), new LogInclusionProof(args.leaf, args.size, args.index, args.path), S, F);`
	webEntries     = `Log(args.log).verifyEntries(Head(args.prev), Head(args.head), RAW_DATA_ENTRY_FACTORY, E, S, F);`
	webStates      = `
var m = Map(args.map);
if (args.size < 0) { m.getVerifiedLatestMapState(State(args.prev), S, F); } else { m.getVerifiedMapState(State(args.prev), args.size, S, F); }`
	webValue = `Map(args.map).getVerifiedValue(args.key, State(args.state), RAW_DATA_ENTRY_FACTORY, S, F);`
	webWait  = `Log(args.log).blockUntilPresent(Leaf(args.leaf), S, F);`
)

// webMode is a kind of lie.
type webMode struct {
	name         string
	fields, json bool
	budget       int
}

func (m webMode) run(x *mck.X, cache *liar.Cache, name string, fs family, code string, a args, waits int, check func(s *liar.Server, o *browser.Outcome)) {
	mk := server(fs, m.fields)
	if m.json {
		mk = func() *liar.Server {
			return &liar.Server{MaxCalls: 40, Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(fs[0], req) }, Menu: func(method string, req proto.Message, base liar.Alt) []liar.Alt {
				if m.budget > 1 {
					return menuOf(fs, false)(method, req, base)
				}
				return nil
			}}
		}
	}
	cache.Deviate(x, name+m.name, m.budget, mk, func(s *liar.Server, yes bool) {
		var o *browser.Outcome
		if m.json {
			o = webVia(x, s, code, a, waits, webAlter(s))
		} else {
			o = web(x, s, code, a, waits)
		}
		if yes {
			x.Logf("%s", o)
			check(s, o)
		}
	})
}

func accepted(o *browser.Outcome) bool {
	for _, e := range o.Events {
		if e.Kind == "success" {
			return true
		}
	}
	return false
}

// webFromEmpty: the head of a log that is still empty is as good a start as none.
func webFromEmpty(c *mck.C) {
	c.Explore("from the head of an empty log", func(x *mck.X) {
		f := logFamily(x.Choose(5, "entries"), 0, 0)[0]
		n := f.N(tLog)
		s := &liar.Server{MaxCalls: 40, Base: func(_ string, req proto.Message) liar.Alt { return liar.Honest(f, req) }}
		s.Ready()
		prev := f.Head(tLog, 0)
		l := browser.Log("l", tLog)
		size := x.Range(-1, n, "requested size")
		var o *browser.Outcome
		switch x.Choose(3, "call") {
		case 0:
			o = web(x, s, webHeads, args{"log": l, "prev": browser.Head(prev), "size": size}, 0)
		case 1:
			if size < 1 {
				x.Prune()
			}
			i := x.Choose(size, "index")
			proof := liar.Honest(f, &pb.LogInclusionProofRequest{Log: &pb.LogRef{LogType: tLog}, TreeSize: int64(size), LeafIndex: int64(i)}).Resp.(*pb.LogInclusionProofResponse)
			o = web(x, s, webSupplied, args{"log": l, "prev": browser.Head(prev), "leaf": browser.Str(f.Tree(tLog).L[i]), "size": size, "index": i, "path": browser.Path(proof.AuditPath)}, 0)
		default:
			o = web(x, s, webEntries, args{"log": l, "prev": browser.Head(prev), "head": browser.Head(f.Head(tLog, max(size, 0)))}, 0)
			for i, e := range o.Events {
				if e.Kind == "each" {
					b, _ := e.Args[1].Get("getData").Bytes()
					x.Assert(i < n && bytes.Equal(b, f.Logs[tLog][i].LeafInput), "from the head of an empty log to %d of %d entries: %s", size, n, o)
				}
			}
			x.Assert(o.Ended() == "" && accepted(o) && len(o.Events) == max(size, 0)+1, "from the head of an empty log to %d of %d entries: %s", size, n, o)
			return
		}
		if size < 1 {
			size = n
		}
		vs, ok := o.OK()
		x.Assert(ok && len(vs) == 1, "from the head of an empty log to %d of %d entries: %s", size, n, o)
		h, ok := browser.AsHead(vs[0])
		x.Assert(ok && h.GetTreeSize() == int64(size) && bytes.Equal(h.GetRootHash(), f.Head(tLog, size).RootHash), "from the head of an empty log to %d of %d entries: %s", size, n, o)
		c.State("from empty", n, size)
	})
}

func runW01(c *mck.C) {
	webVerifiers(c)
	webFromEmpty(c)
	webChain(c)
	var cache liar.Cache
	n := c.Pick(4, 6)
	for fork := 0; fork <= n; fork++ {
		fs := logFamily(n, fork, n+2)
		name := fmt.Sprintf("fork at %d", fork)
		modes := []webMode{{"other histories", false, false, 2}}
		if !c.Quick() || fork == 2 {
			modes = append(modes, webMode{"fields", true, false, c.Pick(1, 2)}, webMode{"JSON", false, true, 1})
			if fork == 2 {
				modes = append(modes, webMode{"histories and JSON", false, true, 2})
			}
		}
		for _, m := range modes {
			webLogs(c, &cache, fs, n, name, m)
		}
	}
	for fork := 0; fork <= 6; fork++ {
		if c.Quick() && fork%3 != 0 {
			continue
		}
		modes := []webMode{{"other histories", false, false, c.Pick(1, 2)}}
		if !c.Quick() || fork == 3 {
			modes = append(modes, webMode{"fields", true, false, 1}, webMode{"JSON", false, true, 1})
		}
		for _, m := range modes {
			webMaps(c, &cache, mapFamily(fork), 6, fmt.Sprintf("fork at %d", fork), m)
		}
	}
	for kind := 0; kind < 2; kind++ {
		for fork := 0; fork < 6; fork++ {
			if !c.Quick() || fork == 0 && kind == 0 || fork == 3 {
				fs, name := splitFamily(kind, fork)
				webStatesOf(c, &cache, fs, 6, name, webMode{"other histories", false, false, c.Pick(1, 2)})
			}
		}
	}
}

func webLogs(c *mck.C, cache *liar.Cache, fs family, n int, name string, mode webMode) {
	lie := name + ", " + mode.name
	l := browser.Log("l", tLog)
	two := mode.json && mode.budget > 1
	c.Explore("log heads, "+lie, func(x *mck.X) {
		p := x.Range(1, n, "previous size")
		size := x.Range(-1, n+2, "requested size")
		if two && c.Quick() && (p != 2 || size != -1) {
			x.Prune()
		}
		prev := fs[0].Head(tLog, p)
		mode.run(x, cache, fmt.Sprint("web heads", lie, p, size), fs, webHeads, args{"log": l, "prev": browser.Head(prev), "size": size}, 0, func(s *liar.Server, o *browser.Outcome) {
			if !accepted(o) {
				x.Assert(len(s.Used) > 0 || size > n, "honest head at %d after %d is refused: %s", size, p, o)
				return
			}
			vs, _ := o.OK()
			if len(vs) != 1 {
				x.Failf("head at %d after %d: %s (%v)", size, p, o, s.Used)
			}
			h, ok := browser.AsHead(vs[0])
			x.Assert(ok && fs.extends(tLog, prev, h), "head %s is returned after %s, but no history has both (%v)", vs[0], head(prev), s.Used)
			if size == -1 {
				x.Assert(h.TreeSize >= prev.TreeSize, "latest head %s is older than %s (%v)", head(h), head(prev), s.Used)
			}
			c.State("accepted head", lie, p, size, h.TreeSize)
		})
	})
	c.Explore("consistency and inclusion, "+lie, func(x *mck.X) {
		what := x.Choose(2, "call")
		ua := x.Choose(2, "universe of a")
		na := x.Range(0, fs[ua].N(tLog), "size of a")
		if two && c.Quick() && (na != 3 || ua != 0) {
			x.Prune()
		}
		a := fs[ua].Head(tLog, na)
		m := mode
		if !two && m.budget > 1 {
			m.budget = 1
		}
		if what == 0 {
			ub := x.Choose(2, "universe of b")
			b := fs[ub].Head(tLog, x.Range(0, fs[ub].N(tLog), "size of b"))
			m.run(x, cache, fmt.Sprint("web cons", lie, ua, na, ub, b.TreeSize), fs, webConsistency, args{"log": l, "a": browser.Head(a), "b": browser.Head(b)}, 0, func(s *liar.Server, o *browser.Outcome) {
				if accepted(o) {
					x.Assert(fs.extends(tLog, a, b), "%s and %s are said to be consistent, but no history has both (%v)", head(a), head(b), s.Used)
				} else {
					x.Assert(len(s.Used) > 0 || ua == 1 || ub == 1 || na == 0 || b.TreeSize == 0, "%s and %s are said to be inconsistent: %s", head(a), head(b), o)
				}
			})
			return
		}
		ul := x.Choose(2, "universe of the leaf")
		i := x.Choose(fs[ul].N(tLog)+1, "leaf")
		leaf := fs[0].Tree(tLog).Root(2)
		if i < fs[ul].N(tLog) {
			leaf = fs[ul].Tree(tLog).L[i]
		}
		m.run(x, cache, fmt.Sprint("web incl", lie, ua, na, ul, i), fs, webInclusion, args{"log": l, "a": browser.Head(a), "leaf": browser.Str(leaf)}, 0, func(s *liar.Server, o *browser.Outcome) {
			if accepted(o) {
				x.Assert(fs.contains(tLog, a, leaf, -1), "leaf %x is said to be included in %s, but it is not (%v)", leaf, head(a), s.Used)
			} else {
				x.Assert(len(s.Used) > 0 || ua == 1 || ul == 1 || i >= na, "leaf %d is said not to be in %s: %s", i, head(a), o)
			}
		})
	})
	c.Explore("supplied proofs, "+lie, func(x *mck.X) {
		p := x.Choose(n+1, "previous size")
		var prev *pb.LogTreeHashResponse
		if p > 0 {
			prev = fs[0].Head(tLog, p)
		}
		u := x.Choose(2, "universe of the proof")
		size := x.Range(1, fs[u].N(tLog), "size of the proof")
		i := x.Choose(size, "index of the proof")
		proof := liar.Honest(fs[u], &pb.LogInclusionProofRequest{Log: &pb.LogRef{LogType: tLog}, TreeSize: int64(size), LeafIndex: int64(i)}).Resp.(*pb.LogInclusionProofResponse)
		leaf := fs[u].Tree(tLog).L[i]
		m := mode
		if two && c.Quick() && (p != 2 || i != 1 || u != 0 || size != 3) || mode.fields && c.Quick() && (p == 1 || p == 3) {
			x.Prune()
		}
		if !two && m.budget > 1 {
			m.budget = 1
		}
		idx, sz := interface{}(proof.LeafIndex), interface{}(proof.TreeSize)
		v := 0
		if mode.fields {
			alts := liar.Perturb(proof, liar.Opts{})
			nums := append(numbers(json.Number(fmt.Sprint(i))), numbers(json.Number(fmt.Sprint(size)))...)
			v = x.Choose(len(alts)+2+2*len(nums), "proof deviation")
			switch {
			case v == 0:
			case v == 1:
				leaf = fs[u].Tree(tLog).L[(i+1)%size]
			case v < len(alts)+2:
				proof = alts[v-2].Resp.(*pb.LogInclusionProofResponse)
				idx, sz = proof.LeafIndex, proof.TreeSize
			case v < len(alts)+2+len(nums):
				idx = json.RawMessage(nums[v-len(alts)-2])
			default:
				sz = json.RawMessage(nums[v-len(alts)-2-len(nums)])
			}
			if v > 0 {
				m.budget = 0
			}
		}
		m.run(x, cache, fmt.Sprint("web supp", lie, p, u, size, i, m.budget), fs, webSupplied, args{"log": l, "prev": browser.Head(prev), "leaf": browser.Str(leaf), "size": sz, "index": idx, "path": browser.Path(proof.AuditPath)}, 0, func(s *liar.Server, o *browser.Outcome) {
			if !accepted(o) {
				x.Assert(len(s.Used) > 0 || u == 1 || v != 0 || size > n, "honest proof of %d in %d after %d is refused: %s", i, size, p, o)
				return
			}
			vs, _ := o.OK()
			if len(vs) != 1 {
				x.Failf("supplied proof: %s (%v)", o, s.Used)
			}
			h, ok := browser.AsHead(vs[0])
			x.Assert(ok, "supplied proof accepted under head %s (%v)", vs[0], s.Used)
			if prev != nil {
				x.Assert(fs.extends(tLog, prev, h), "supplied proof is accepted under head %s after %s, but no history has both (%v)", head(h), head(prev), s.Used)
			} else if !fs.known(tLog, h) {
				return
			}
			n, isNum := int64(-1), false
			if f, ok := idx.(int64); ok {
				n, isNum = f, true
			} else {
				var f float64
				if json.Unmarshal(idx.(json.RawMessage), &f) == nil && f == float64(int64(f)) {
					n, isNum = int64(f), true
				}
			}
			x.Assert(isNum, "supplied proof with index %s accepted under head %s (%v)", idx, head(h), s.Used)
			x.Assert(fs.contains(tLog, h, leaf, n), "supplied proof %v, index %v, of leaf %x is accepted under head %s (%v)", proof, idx, leaf, head(h), s.Used)
		})
	})
	c.Explore("verified entries, "+lie, func(x *mck.X) {
		p := x.Choose(n+1, "previous size")
		up, uh := x.Choose(2, "universe of previous"), x.Choose(2, "universe of head")
		if p == 0 && up > 0 || two && c.Quick() {
			x.Prune()
		}
		h := x.Range(1, fs[uh].N(tLog), "size")
		if p > fs[up].N(tLog) {
			x.Prune()
		}
		hd := fs[uh].Head(tLog, h)
		var prev *pb.LogTreeHashResponse
		if p > 0 {
			prev = fs[up].Head(tLog, p)
		}
		mode.run(x, cache, fmt.Sprint("web entries", lie, p, up, h, uh), fs, webEntries, args{"log": l, "prev": browser.Head(prev), "head": browser.Head(hd)}, 0, func(s *liar.Server, o *browser.Outcome) {
			if !accepted(o) {
				x.Assert(len(s.Used) > 0 || up == 1 || uh == 1, "honest entries from %d to %d are refused: %s", p, h, o)
				return
			}
			if h <= p {
				return
			}
			var got []string
			for _, e := range o.Events {
				if e.Kind != "each" {
					continue
				}
				i, ok := browser.AsSize(e.Args[0])
				b, okb := e.Args[1].Get("getData").Bytes()
				x.Assert(ok && okb && int(i) == p+len(got), "audit from %d to %d presents entry %s (%v)", p, h, e, s.Used)
				got = append(got, string(b))
			}
			known := false
			for _, f := range fs {
				if !isHead(f, tLog, hd) || (prev != nil && !isHead(f, tLog, prev)) {
					continue
				}
				known = true
				x.Assert(len(got) == h-p, "audit from %d to %d presented %d entries (%v)", p, h, len(got), s.Used)
				for i := range got {
					x.Assert(got[i] == string(f.Logs[tLog][p+i].LeafInput), "audit from %d to %d accepted entry %d as %q, it is %q (%v)", p, h, p+i, got[i], f.Logs[tLog][p+i].LeafInput, s.Used)
				}
			}
			x.Assert(known, "audit from %s to %s succeeded, but no history has both (%v)", head(prev), head(hd), s.Used)
		})
	})
}

func webMaps(c *mck.C, cache *liar.Cache, fs family, n int, name string, mode webMode) {
	webStatesOf(c, cache, fs, n, name, mode)
	webValues(c, cache, fs, name, mode)
}

func webStatesOf(c *mck.C, cache *liar.Cache, fs family, n int, name string, mode webMode) {
	lie := name + ", " + mode.name
	c.Explore("map states, "+lie, func(x *mck.X) {
		p := x.Choose(n+1, "previous size")
		var prev *verifiable.MapTreeState
		if p > 0 {
			th := p
			if p < n && x.Bool("newer tree head log head") {
				th = n
			}
			prev = fs.state(0, p, th)
		}
		size := x.Range(-1, n+1, "requested size")
		if (mode.json || mode.fields) && c.Quick() && (p%3 == 1 || size != -1 && size != 5) {
			x.Prune()
		}
		mode.run(x, cache, fmt.Sprint("web states", lie, p, strState(prev), size), fs, webStates, args{"map": "m", "prev": browser.State(prev), "size": size}, 0, func(s *liar.Server, o *browser.Outcome) {
			if !accepted(o) {
				x.Assert(len(s.Used) > 0 || size > n, "honest state at %d after %d is refused: %s", size, p, o)
				return
			}
			vs, _ := o.OK()
			if len(vs) != 1 {
				x.Failf("state at %d after %d: %s (%v)", size, p, o, s.Used)
			}
			st, ok := browser.AsState(vs[0])
			x.Assert(ok, "state %s is accepted after %s (%v)", vs[0], strState(prev), s.Used)
			why := ""
			if strState(st) != strState(prev) {
				why = fs.soundState(prev, st)
			}
			x.Assert(why == "", "state %s is accepted after %s: %s (%v)", strState(st), strState(prev), why, s.Used)
			if size == -1 && prev != nil {
				x.Assert(st.TreeSize() >= prev.TreeSize(), "latest state %s is older than %s", strState(st), strState(prev))
			}
			c.State("accepted state", lie, p, size, strState(st))
		})
	})
}

func webValues(c *mck.C, cache *liar.Cache, fs family, name string, mode webMode) {
	lie := name + ", " + mode.name
	keys := [][]byte{[]byte("a"), ref.Base, []byte("d"), []byte("absent")}
	c.Explore("map values, "+lie, func(x *mck.X) {
		u := x.Choose(2, "universe")
		k := x.Range(1, len(fs[u].Roots)-1, "size")
		if c.Quick() && k%2 == 0 {
			x.Prune()
		}
		key := keys[x.Choose(len(keys), "key")]
		st := fs.state(u, k, k)
		m := mode
		if m.budget > 1 {
			m.budget = 1
		}
		m.run(x, cache, fmt.Sprint("web get", lie, u, k, string(key)), fs, webValue, args{"map": "m", "key": browser.Str(key), "state": browser.State(st)}, 0, func(s *liar.Server, o *browser.Outcome) {
			if !accepted(o) {
				x.Assert(len(s.Used) > 0 || u != 0, "honest value of %q at %d is refused: %s", key, k, o)
				return
			}
			vs, _ := o.OK()
			want := fs[u].Vals[k][string(key)]
			b, ok := []byte(nil), false
			if len(vs) == 1 {
				b, ok = vs[0].Get("getData").Bytes()
			}
			x.Assert(ok && bytes.Equal(b, want.GetLeafInput()), "value of %q under %s is accepted as %s, it is %s (%v)", key, strState(st), o, world.Str(want), s.Used)
			c.State("accepted value", lie, u, k, string(key))
		})
	})
}

// ------------------------------------------------------------- the verifiers

// webBatch collects cases for the verifiers of the browser client.
type webBatch struct {
	cases []args
	want  []bool
	what  []string
}

const webVerdicts = `
var rv = '';
for (var i = 0; i < args.cases.length; i++) {
	var k = args.cases[i];
	try {
		if (k.kind === 'i') {
			new LogInclusionProof(k.leaf, k.size, k.index, k.path).verify(Head(k.head));
		} else if (k.kind === 'c') {
			new LogConsistencyProof(k.from, k.size, k.path).verify(Head(k.a), Head(k.b));
		} else {
			var p = [];
			for (var j = 0; j < 256; j++) { p.push(k.path[j] === undefined ? null : k.path[j]); }
			if (k.short) { p = p.slice(0, k.short); }
			new MapEntryResponse(k.key, Leaf(k.leaf), k.size, p).verify(MapHead(k.head));
		}
		rv += '1';
	} catch (e) {
		rv += '0';
	}
}
R(rv);`

func (b *webBatch) add(a args, want bool, format string, v ...interface{}) {
	b.cases = append(b.cases, a)
	b.want = append(b.want, want)
	b.what = append(b.what, fmt.Sprintf(format, v...))
}

// judge has the client decide; must says which cases it must accept.
func (b *webBatch) judge(x *mck.X, must map[int]bool) {
	for at := 0; at < len(b.cases); at += 2000 {
		end := at + 2000
		if end > len(b.cases) {
			end = len(b.cases)
		}
		o := web(x, nil, webVerdicts, args{"cases": b.cases[at:end]}, 0)
		if o.Stuck {
			x.Failf("a verifier does not come to an end, on one of %v", b.what[at:end])
		}
		x.Assert(len(o.Events) == 1 && o.Events[0].Kind == "result" && len(*o.Events[0].Args[0].S) == end-at, "verifiers: %.300s", o)
		for i, v := range *o.Events[0].Args[0].S {
			i += at
			x.Assert(v == '0' || b.want[i], "accepted: %s", b.what[i])
			x.Assert(v == '1' || !must[i], "refused: %s", b.what[i])
		}
	}
	x.C.Transition(len(b.cases))
	x.C.Trace(len(b.cases))
}

func webNumber(n int64) interface{} { return n }

func webVerifiers(c *mck.C) {
	big := c.Pick(18, 60)
	oddNumbers := func(n int) []string { return numbers(json.Number(fmt.Sprint(n))) }
	c.Explore("inclusion proofs", func(x *mck.X) {
		n := 1 + x.Choose(big, "tree size")
		m := x.Choose(n, "index")
		t := smallTree(n + 2)
		hd := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n)}
		path := t.Path(m, 0, n)
		b := &webBatch{}
		test := func(idx, sz int64, p [][]byte, leaf []byte, h *pb.LogTreeHashResponse) {
			pr := &pb.LogInclusionProofResponse{TreeSize: sz, LeafIndex: idx, AuditPath: p}
			b.add(args{"kind": "i", "index": idx, "size": sz, "path": browser.Path(p), "leaf": browser.Str(leaf), "head": browser.Head(h)}, refInclusion(pr, leaf, h), "index %d size %d path %x leaf %x under %s", idx, sz, p, leaf, head(h))
		}
		test(int64(m), int64(n), path, t.L[m], hd)
		for j := int64(-2); j < int64(n+2); j++ {
			test(j, int64(n), path, t.L[m], hd)
		}
		for _, j := range bigSizes {
			if j > 1<<53 {
				continue
			}
			test(int64(j), int64(n), path, t.L[m], hd)
			test(int64(m)+int64(j)&^1, int64(n), path, t.L[m], hd)
			for _, d := range []int64{0, int64(n), int64(m)} {
				test(int64(m), int64(j)+d, path, t.L[m], hd)
				test(int64(m), int64(j)+d, path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(j) + d, RootHash: t.Root(n)})
				test(int64(m)+int64(j), int64(j)+d, path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(j) + d, RootHash: t.Root(n)})
			}
			test(-int64(j), int64(n), path, t.L[m], hd)
			test(int64(m), -int64(j), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: -int64(j), RootHash: t.Root(n)})
		}
		for _, s := range append(oddNumbers(n), oddNumbers(m)...) {
			f, exact := plainNumber(s)
			r := json.RawMessage(s)
			// the odd number as index, as the proof's size, and as both sizes
			okIdx := exact && f >= 0 && f < float64(n) && refInclusion(&pb.LogInclusionProofResponse{TreeSize: int64(n), LeafIndex: int64(f), AuditPath: path}, t.L[m], hd)
			b.add(args{"kind": "i", "index": r, "size": n, "path": browser.Path(path), "leaf": browser.Str(t.L[m]), "head": browser.Head(hd)}, okIdx, "index %s in %d, path of %d", s, n, m)
			b.add(args{"kind": "i", "index": m, "size": r, "path": browser.Path(path), "leaf": browser.Str(t.L[m]), "head": browser.Head(hd)}, numberIs(s, n), "index %d, proof of size %s in %d", m, s, n)
			okSize := exact && f >= 1 && f < 1<<53 && refInclusion(&pb.LogInclusionProofResponse{TreeSize: int64(f), LeafIndex: int64(m), AuditPath: path}, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(f), RootHash: hd.RootHash})
			b.add(args{"kind": "i", "index": m, "size": r, "path": browser.Path(path), "leaf": browser.Str(t.L[m]), "head": args{"size": r, "root": browser.Str(hd.RootHash)}}, okSize, "index %d, proof and head of size %s, path in %d", m, s, n)
		}
		for d := -2; d <= 2; d++ {
			test(int64(m), int64(n+d), path, t.L[m], hd)
			test(int64(m), int64(n+d), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n + d), RootHash: hd.RootHash})
			if n+d >= 1 {
				test(int64(m), int64(n+d), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n + d), RootHash: t.Root(n + d)})
				test(int64(m), int64(n), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n + d)})
			}
		}
		for _, l := range append(append(nodes(t, n), junk), t.L...) {
			test(int64(m), int64(n), path, l, hd)
		}
		for _, r := range [][]byte{{}, junk, t.L[m], hd.RootHash[:31], append(append([]byte{}, hd.RootHash...), 0)} {
			test(int64(m), int64(n), path, t.L[m], &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: r})
		}
		pathDeviations(path, [][]byte{junk, t.L[m], hd.RootHash, t.L[0]}, func(_ string, p [][]byte) {
			test(int64(m), int64(n), p, t.L[m], hd)
			test(int64(m^1), int64(n), p, t.L[m], hd)
		})
		b.judge(x, map[int]bool{0: true})
		c.State("web incl", n, m)
	})
	c.Explore("inclusion proofs of all nodes", func(x *mck.X) {
		n := 1 + x.Choose(c.Pick(4, 6), "tree size")
		t := smallTree(n + 1)
		claim := x.Range(-1, n+1, "claimed index")
		sz := n + x.Range(-1, 1, "claimed size delta")
		alpha := append(nodes(t, n), junk)
		leaves := nodes(t, n)
		leaf := leaves[x.Choose(len(leaves), "leaf")]
		hd := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n)}
		b := &webBatch{}
		paths(alpha, 3, func(p [][]byte) {
			pr := &pb.LogInclusionProofResponse{TreeSize: int64(sz), LeafIndex: int64(claim), AuditPath: p}
			b.add(args{"kind": "i", "index": claim, "size": sz, "path": browser.Path(p), "leaf": browser.Str(leaf), "head": browser.Head(hd)}, refInclusion(pr, leaf, hd), "index %d size %d path %x leaf %x under %s", claim, sz, p, leaf, head(hd))
		})
		b.judge(x, nil)
		c.State("web incl nodes", n, claim, sz, fmt.Sprintf("%x", leaf))
	})
	c.Explore("consistency proofs", func(x *mck.X) {
		n := 2 + x.Choose(big, "tree size")
		m := 1 + x.Choose(n-1, "from size")
		t := smallTree(n + 2)
		fork := &ref.Tree{L: append([][]byte{ref.Leaf([]byte("forked"))}, t.L[1:]...)}
		ha := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: t.Root(m)}
		hb := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: t.Root(n)}
		path := t.Proof(m, n)
		b := &webBatch{}
		test := func(from, to int64, p [][]byte, a, h *pb.LogTreeHashResponse) {
			pr := &pb.LogConsistencyProofResponse{FromSize: from, TreeSize: to, AuditPath: p}
			b.add(args{"kind": "c", "from": from, "size": to, "path": browser.Path(p), "a": browser.Head(a), "b": browser.Head(h)}, refConsistency(pr, a, h), "from %d to %d path %x under %s %s", from, to, p, head(a), head(h))
		}
		test(int64(m), int64(n), path, ha, hb)
		sizes := []int64{-2, -1, 0, int64(m - 1), int64(m + 1), int64(n - 1), int64(n + 1), int64(n), int64(m)}
		for _, j := range bigSizes {
			if j < 1<<53 {
				sizes = append(sizes, int64(j), int64(j)+int64(n), int64(j)+int64(m))
			}
		}
		for _, s := range sizes {
			test(s, int64(n), path, ha, hb)
			test(int64(m), s, path, ha, hb)
			test(s, int64(n), path, &pb.LogTreeHashResponse{TreeSize: s, RootHash: ha.RootHash}, hb)
			test(int64(m), s, path, ha, &pb.LogTreeHashResponse{TreeSize: s, RootHash: hb.RootHash})
			for o := 1; o <= n; o++ {
				test(int64(m), s, t.Proof(o, n), ha, &pb.LogTreeHashResponse{TreeSize: s, RootHash: hb.RootHash})
			}
		}
		for _, s := range append(oddNumbers(n), oddNumbers(m)...) {
			f, exact := plainNumber(s)
			r := json.RawMessage(s)
			okTo := exact && f >= 1 && f < 1<<53 && refConsistency(&pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(f), AuditPath: path}, ha, &pb.LogTreeHashResponse{TreeSize: int64(f), RootHash: hb.RootHash})
			okFrom := exact && f >= 1 && f < 1<<53 && refConsistency(&pb.LogConsistencyProofResponse{FromSize: int64(f), TreeSize: int64(n), AuditPath: path}, &pb.LogTreeHashResponse{TreeSize: int64(f), RootHash: ha.RootHash}, hb)
			b.add(args{"kind": "c", "from": m, "size": r, "path": browser.Path(path), "a": browser.Head(ha), "b": args{"size": r, "root": browser.Str(hb.RootHash)}}, okTo, "from %d to %s, path to %d", m, s, n)
			b.add(args{"kind": "c", "from": r, "size": n, "path": browser.Path(path), "a": args{"size": r, "root": browser.Str(ha.RootHash)}, "b": browser.Head(hb)}, okFrom, "from %s to %d, path from %d", s, n, m)
			b.add(args{"kind": "c", "from": r, "size": n, "path": browser.Path(path), "a": browser.Head(ha), "b": browser.Head(hb)}, numberIs(s, m), "proof from %s to %d, path from %d", s, n, m)
			b.add(args{"kind": "c", "from": m, "size": r, "path": browser.Path(path), "a": browser.Head(ha), "b": browser.Head(hb)}, numberIs(s, n), "proof from %d to %s, path to %d", m, s, n)
		}
		heads := []([]byte){{}, junk, t.Root(m), t.Root(n), fork.Root(m), fork.Root(n), t.Root(n + 1), t.L[0], ha.RootHash[:31], append(append([]byte{}, ha.RootHash...), 0)}
		for _, h := range heads {
			for _, h2 := range heads {
				test(int64(m), int64(n), path, &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: h}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: h2})
				test(int64(m), int64(n), fork.Proof(m, n), &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: h}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: h2})
				test(int64(m), int64(n), nil, &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: h}, &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: h2})
			}
		}
		for o := 1; o < n; o++ {
			test(int64(m), int64(n), t.Proof(o, n), ha, hb)
			test(int64(m), int64(n), fork.Proof(o, n), ha, hb)
		}
		pathDeviations(path, [][]byte{junk, ha.RootHash, hb.RootHash, t.L[0]}, func(_ string, p [][]byte) {
			test(int64(m), int64(n), p, ha, hb)
		})
		b.judge(x, map[int]bool{0: true})
		c.State("web cons", n, m)
	})
	c.Explore("huge trees", func(x *mck.X) {
		g := ref.NewBig(ref.Leaf([]byte("same")))
		n := bigSizes[x.Choose(len(bigSizes), "size")]
		if n >= 1<<53 {
			x.Prune()
		}
		b := &webBatch{}
		must := map[int]bool{}
		for _, m := range bigSizes {
			if m > n {
				continue
			}
			hd := &pb.LogTreeHashResponse{TreeSize: int64(n), RootHash: g.Root(n)}
			must[len(b.cases)] = true
			b.add(args{"kind": "i", "index": m - 1, "size": n, "path": browser.Path(g.Path(m-1, n)), "leaf": browser.Str(ref.Leaf([]byte("same"))), "head": browser.Head(hd)}, true, "inclusion of %d in %d", m-1, n)
			for _, j := range bigSizes {
				if j < 1<<53 {
					h2 := &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: hd.RootHash}
					for _, k := range []int{m - 1, j} {
						pr := &pb.LogInclusionProofResponse{TreeSize: int64(j), LeafIndex: int64(k), AuditPath: g.Path(m-1, n)}
						b.add(args{"kind": "i", "index": k, "size": j, "path": browser.Path(pr.AuditPath), "leaf": browser.Str(ref.Leaf([]byte("same"))), "head": browser.Head(h2)}, refInclusion(pr, ref.Leaf([]byte("same")), h2), "inclusion of %d in %d with the path of %d in %d", k, j, m-1, n)
					}
				}
			}
			if m == n {
				continue
			}
			ha := &pb.LogTreeHashResponse{TreeSize: int64(m), RootHash: g.Root(m)}
			must[len(b.cases)] = true
			b.add(args{"kind": "c", "from": m, "size": n, "path": browser.Path(g.Proof(m, n)), "a": browser.Head(ha), "b": browser.Head(hd)}, true, "consistency of %d and %d", m, n)
			for _, j := range bigSizes {
				if j < 1<<53 {
					pr := &pb.LogConsistencyProofResponse{FromSize: int64(m), TreeSize: int64(j), AuditPath: g.Proof(m, n)}
					h2 := &pb.LogTreeHashResponse{TreeSize: int64(j), RootHash: hd.RootHash}
					b.add(args{"kind": "c", "from": m, "size": j, "path": browser.Path(pr.AuditPath), "a": browser.Head(ha), "b": browser.Head(h2)}, refConsistency(pr, ha, h2), "consistency of %d and %d with the path to %d", m, j, n)
				}
			}
		}
		b.judge(x, must)
		c.State("web huge", n)
	})
	c.Explore("map proofs", func(x *mck.X) {
		fs := mapFamily(3)
		f := fs[x.Choose(2, "map")]
		k := x.Range(1, len(f.Roots)-1, "size")
		keys := [][]byte{[]byte("a"), ref.Base, []byte("d"), []byte("absent"), {}}
		key := keys[x.Choose(len(keys), "key")]
		if c.Quick() && (k != 4 || f != fs[0]) && (k != 6 || f != fs[1]) {
			x.Prune()
		}
		sib := f.Hist[k].Siblings(key)
		hd := f.MapHead(k)
		leaf := f.Hist[k].LeafHash(key)
		b := &webBatch{}
		test := func(key, leaf []byte, size int64, p [][]byte, short int, h *pb.MapTreeHashResponse) {
			m := map[string]string{}
			for i := range p {
				if p[i] != nil {
					m[fmt.Sprint(i)] = browser.Str(p[i])
				}
			}
			ok := size == h.MutationLog.TreeSize && short == 0
			if ok {
				q := make([][]byte, len(p))
				for i := range p {
					q[i] = p[i]
					if p[i] != nil && len(p[i]) == 0 {
						ok = false // not a default
					}
				}
				ok = ok && bytes.Equal(ref.RootFromMapProof(key, leaf, q), h.RootHash)
			}
			b.add(args{"kind": "m", "key": browser.Str(key), "leaf": browser.Str(leaf), "size": size, "path": m, "short": short, "head": browser.MapHead(h)}, ok, "key %q leaf %x size %d under %x", key, leaf, size, h.RootHash)
		}
		test(key, leaf, int64(k), sib, 0, hd)
		for _, o := range keys {
			test(o, leaf, int64(k), sib, 0, hd)
			test(key, f.Hist[k].LeafHash(o), int64(k), sib, 0, hd)
			test(key, leaf, int64(k), f.Hist[k].Siblings(o), 0, hd)
		}
		for j := range f.Roots {
			if j > 0 {
				test(key, leaf, int64(j), sib, 0, hd)
				test(key, leaf, int64(j), f.Hist[j].Siblings(key), 0, hd)
				test(key, leaf, int64(k), f.Hist[j].Siblings(key), 0, hd)
				test(key, f.Hist[j].LeafHash(key), int64(k), sib, 0, hd)
				test(key, leaf, int64(j), sib, 0, f.MapHead(j))
			}
		}
		for i := 0; i < 256; i++ {
			if i > 2 && i < 254 && i%64 != 0 && sib[i] == nil && c.Quick() {
				continue
			}
			for _, v := range [][]byte{nil, junk, leaf, {}} {
				p := append([][]byte{}, sib...)
				p[i] = v
				test(key, leaf, int64(k), p, 0, hd)
			}
		}
		b.judge(x, map[int]bool{0: true})
		c.State("web map", f.Name, k, string(key))
	})
}

// plainNumber is a JSON number's value; ok is false unless it is an integer
// that the client's language can hold.
func plainNumber(s string) (f float64, ok bool) {
	if json.Unmarshal([]byte(s), &f) != nil || s == "null" {
		return 0, false
	}
	return f, f == float64(int64(f)) && f < 1<<53 && f > -1<<53
}

// numberIs says whether a number is the integer n.
func numberIs(s string, n int) bool {
	f, ok := plainNumber(s)
	return ok && f == float64(n)
}

// webChain: what a client has been told, or has accepted, before changes
// nothing for later calls on the same objects.
func webChain(c *mck.C) {
	fs, ls := mapFamily(3), logFamily(6, 2, 7)
	for u := range fs {
		fs[u].Logs[tLog] = ls[u].Logs[tLog]
		for _, t := range []pb.LogType{tLog, tMut, tHead} {
			fs[u].Tree(t)
		}
	}
	type call struct {
		name, code string
		a          args
	}
	var calls []call
	for u := range fs {
		f := fs[u]
		add := func(name, code string, a args) {
			calls = append(calls, call{fmt.Sprintf("%s of %s", name, f.Name), code, a})
		}
		for _, p := range []int{1, 4} {
			add(fmt.Sprintf("the latest head after %d", p), `l.getVerifiedLatestTreeHead(Head(a.prev), S, F);`, args{"prev": browser.Head(f.Head(tLog, p))})
			add(fmt.Sprintf("head 3 after %d", p), `l.getVerifiedTreeHead(Head(a.prev), 3, S, F);`, args{"prev": browser.Head(f.Head(tLog, p))})
			add(fmt.Sprintf("consistency of %d and 5", p), `l.verifyConsistency(Head(a.prev), Head(a.b), S, F);`, args{"prev": browser.Head(f.Head(tLog, p)), "b": browser.Head(f.Head(tLog, 5))})
			add(fmt.Sprintf("inclusion of %d in 5", p-1), `l.verifyInclusion(Head(a.b), Leaf(a.leaf), S, F);`, args{"leaf": browser.Str(f.Tree(tLog).L[p-1]), "b": browser.Head(f.Head(tLog, 5))})
			add(fmt.Sprintf("entries from %d to 5", p), `l.verifyEntries(Head(a.prev), Head(a.b), RAW_DATA_ENTRY_FACTORY, E, S, F);`, args{"prev": browser.Head(f.Head(tLog, p)), "b": browser.Head(f.Head(tLog, 5))})
			add(fmt.Sprintf("map state 3 after %d", p), `m.getVerifiedMapState(State(a.prev), 3, S, F);`, args{"prev": browser.State(fs.state(u, p, p))})
			add(fmt.Sprintf("the latest map state after %d", p), `m.getVerifiedLatestMapState(State(a.prev), S, F);`, args{"prev": browser.State(fs.state(u, p, p))})
			add(fmt.Sprintf("the value of a at %d", p), `m.getVerifiedValue('a', State(a.prev), RAW_DATA_ENTRY_FACTORY, S, F);`, args{"prev": browser.State(fs.state(u, p, p))})
			add(fmt.Sprintf("the value of e at %d", p), `m.getVerifiedValue('e', State(a.prev), RAW_DATA_ENTRY_FACTORY, S, F);`, args{"prev": browser.State(fs.state(u, p, p))})
		}
		add("the first head", `l.getVerifiedLatestTreeHead(null, S, F);`, nil)
		add("the first map state", `m.getVerifiedLatestMapState(null, S, F);`, nil)
		path := f.Tree(tLog).Path(3, 0, 4)
		add("a supplied proof", `l.verifySuppliedInclusionProof(Head(a.prev), new LogInclusionProof(a.leaf, 4, 3, a.path), S, F);`, args{"prev": browser.Head(f.Head(tLog, 3)), "leaf": browser.Str(f.Tree(tLog).L[3]), "path": browser.Path(path)})
	}
	const code = `
var client = Client(), l = client.getVerifiableLog('l'), m = client.getVerifiableMap('m');
var call = [%s];
var begin = function (i, then) {
	if (call[i] === undefined) { return; }
	var on = function (f, end) { return function () { f.apply(null, [String(i)].concat(Array.prototype.slice.call(arguments))); if (end && then) { var t = then; then = null; t(); } }; };
	call[i](on(S, true), on(F, true), on(E, false), args.a[i]);
};
begin(0, function () { begin(1); });`
	// run makes calls one after another; the server is fs[u] for the first k
	// requests, and fs[v] from then on
	run := func(x *mck.X, u, k, v int, ks ...call) (got [2]string, n int) {
		s := &liar.Server{MaxCalls: 60, Menu: func(string, proto.Message, liar.Alt) []liar.Alt { return nil }}
		s.Base = func(_ string, req proto.Message) liar.Alt {
			n++
			if n <= k {
				return liar.Honest(fs[u], req)
			}
			return liar.Honest(fs[v], req)
		}
		s.Ready()
		var cs []string
		as := []interface{}{}
		for _, k := range ks {
			cs = append(cs, "function (S, F, E, a) { "+k.code+" }")
			as = append(as, k.a)
		}
		o := web(x, s, fmt.Sprintf(code, strings.Join(cs, ", ")), args{"a": as}, 0)
		for _, e := range o.Events {
			i := 0
			if len(e.Args) > 0 && e.Args[0].S != nil && len(*e.Args[0].S) == 1 && e.Kind != "throw" {
				i = int((*e.Args[0].S)[0] - '0')
				e.Args = e.Args[1:]
			}
			got[i] += e.String() + "; "
		}
		return got, n
	}
	type how struct{ call, server int }
	alone := map[how]string{}
	count := map[how]int{}
	var mu sync.Mutex
	single := func(x *mck.X, h how) (string, int) {
		mu.Lock()
		s, ok := alone[h]
		n := count[h]
		mu.Unlock()
		if ok {
			return s, n
		}
		got, n := run(x, h.server, 1000, h.server, calls[h.call])
		mu.Lock()
		alone[h], count[h] = got[0], n
		mu.Unlock()
		return got[0], n
	}
	c.Explore("one call after another", func(x *mck.X) {
		a := how{x.Choose(len(calls), "first call"), x.Choose(2, "server")}
		b := how{x.Choose(len(calls), "second call"), x.Choose(2, "server then")}
		sa, k := single(x, a)
		sb, _ := single(x, b)
		got, _ := run(x, a.server, k, b.server, calls[a.call], calls[b.call])
		x.Assert(got[0] == sa, "%s (from %s) ends in %s, and now in %s", calls[a.call].name, fs[a.server].Name, sa, got[0])
		x.Assert(got[1] == sb, "%s (from %s) after %s (from %s) ends in %s, and alone in %s", calls[b.call].name, fs[b.server].Name, calls[a.call].name, fs[a.server].Name, got[1], sb)
		c.State("web chain", a, b)
	})
}
