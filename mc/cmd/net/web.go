package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/server/httprest"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/browser"
	"verifmc/liar"
	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
)

type args map[string]interface{}

// page is a REST server and what its browser client needs.
type page struct {
	tap *tap
	h   http.Handler
}

var pages = sync.Pool{New: func() interface{} {
	p := &page{tap: &tap{}}
	p.h = httprest.CreateRESTHandler(p.tap, nil, nil)
	return p
}}

// webCall is a call of the browser client that makes one request.
type webCall struct {
	name string
	code string
	args args
	req  proto.Message                                       // what must reach the service
	same func(want, got proto.Message) bool                  // whether it is the same request
	ok   func(resp proto.Message, o *browser.Outcome) string // what is wrong with the outcome of a call that succeeded
}

var factories = []string{"RAW_DATA_ENTRY_FACTORY", "JSON_ENTRY_FACTORY", "REDACTED_JSON_ENTRY_FACTORY"}

// unreadable says whether a factory can't make anything of an entry.
func unreadable(factory int, e *pb.LeafData) bool {
	return factory > 0 && !utf8.Valid(e.GetExtraData())
}

// sameEntry says what is wrong with an entry that a factory made.
func sameEntry(factory int, e *pb.LeafData, v browser.Value) string {
	sound := factory == 0 || verifiable.ValidateJSONLeafData(ctx, e) == nil
	if h, ok := v.Get("getLeafHash").Bytes(); sound && (!ok || !bytes.Equal(h, ref.Leaf(e.GetLeafInput()))) {
		return "its leaf hash is wrong"
	}
	d := v.Get("getData")
	switch factory {
	case 0:
		if b, ok := d.Bytes(); !ok || !bytes.Equal(b, e.GetLeafInput()) {
			return "its data is wrong"
		}
	case 1:
		if d.S == nil || *d.S != string(e.GetExtraData()) {
			return "its JSON is wrong"
		}
	default:
		if !sound {
			return ""
		}
		shed, err := verifiable.ShedRedactedJSONFields(e.GetExtraData())
		if err != nil {
			return ""
		}
		var a, b interface{}
		if d.S == nil || json.Unmarshal([]byte(*d.S), &a) != nil || json.Unmarshal(shed, &b) != nil || !reflect.DeepEqual(a, b) {
			return fmt.Sprintf("its JSON is not %s", shed)
		}
	}
	return ""
}

func one(o *browser.Outcome) browser.Value {
	vs, ok := o.OK()
	if !ok || len(vs) != 1 {
		return browser.Value{Undefined: true}
	}
	return vs[0]
}

func samePath(p [][]byte, v browser.Value) bool {
	if v.A == nil && len(p) > 0 || len(v.A) != len(p) {
		return false
	}
	for i := range p {
		if b, ok := v.A[i].Bytes(); !ok || !bytes.Equal(b, p[i]) {
			return false
		}
	}
	return true
}

func sameHead(h *pb.LogTreeHashResponse, v browser.Value) bool {
	g, ok := browser.AsHead(v)
	return ok && g.GetTreeSize() == h.GetTreeSize() && bytes.Equal(g.GetRootHash(), h.GetRootHash())
}

func sizeIs(v browser.Value, n int64) bool {
	g, ok := browser.AsSize(v)
	return ok && g == n
}

var webAccount = &pb.AccountRef{Id: "0", ApiKey: "key"}

func webSizes() []int64 { return []int64{-1, 0, 1, 2, 3, 5, 6, 7, 10, 1 << 31, 1 << 32, 1<<53 - 1} }

// webReads are the calls that read, each with many arguments.
func webReads() []webCall {
	var rv []webCall
	add := func(name, code string, a args, req proto.Message, ok func(resp proto.Message, o *browser.Outcome) string) {
		rv = append(rv, webCall{name: name, code: code, args: a, req: req, ok: ok})
	}
	for _, t := range []pb.LogType{ltLog, ltMut, ltHead} {
		l := browser.Log("l", t)
		lr := &pb.LogRef{Account: webAccount, Name: "l", LogType: t}
		for _, n := range webSizes() {
			add(fmt.Sprintf("getTreeHead(%d) of %s", n, t), `Log(args.log).getTreeHead(args.n, S, F);`, args{"log": l, "n": n}, &pb.LogTreeHashRequest{Log: lr, TreeSize: n}, func(resp proto.Message, o *browser.Outcome) string {
				if !sameHead(resp.(*pb.LogTreeHashResponse), one(o)) {
					return "another head"
				}
				return ""
			})
			for f := range factories {
				add(fmt.Sprintf("getEntry(%d, %s) of %s", n, factories[f], t), `Log(args.log).getEntry(args.n, `+factories[f]+`, S, F);`, args{"log": l, "n": n}, &pb.LogFetchEntriesRequest{Log: lr, First: n, Last: n + 1}, func(resp proto.Message, o *browser.Outcome) string {
					return sameEntry(f, resp.(*pb.LogFetchEntriesResponse).Values[0], one(o))
				})
				for _, m := range webSizes() {
					add(fmt.Sprintf("getEntries(%d, %d, %s) of %s", n, m, factories[f], t), `Log(args.log).getEntries(args.n, args.m, `+factories[f]+`, E, S, F);`, args{"log": l, "n": n, "m": m}, &pb.LogFetchEntriesRequest{Log: lr, First: n, Last: m}, func(resp proto.Message, o *browser.Outcome) string {
						vs := resp.(*pb.LogFetchEntriesResponse).Values
						if len(o.Events) != len(vs)+1 {
							return fmt.Sprintf("not %d entries", len(vs))
						}
						for i, e := range vs {
							ev := o.Events[i]
							if ev.Kind != "each" || len(ev.Args) != 2 || !sizeIs(ev.Args[0], n+int64(i)) {
								return fmt.Sprintf("entry %d is %s", i, ev)
							}
							if s := sameEntry(f, e, ev.Args[1]); s != "" {
								return fmt.Sprintf("entry %d: %s", i, s)
							}
						}
						return ""
					})
				}
			}
			proof := func(leaf []byte) func(resp proto.Message, o *browser.Outcome) string {
				return func(resp proto.Message, o *browser.Outcome) string {
					r, v := resp.(*pb.LogInclusionProofResponse), one(o)
					h, ok := v.Get("getLeafHash").Bytes()
					if !sizeIs(v.Get("getTreeSize"), r.TreeSize) || !sizeIs(v.Get("getLeafIndex"), r.LeafIndex) || !samePath(r.AuditPath, v.Get("getAuditPath")) || leaf != nil && (!ok || !bytes.Equal(h, leaf)) {
						return "another proof"
					}
					return ""
				}
			}
			for _, in := range []string{"e0", "e1", "e5", "never", ""} {
				h := ref.Leaf([]byte(in))
				add(fmt.Sprintf("getInclusionProof(%d, %q) of %s", n, in, t), `Log(args.log).getInclusionProof(args.n, Leaf(args.leaf), S, F);`, args{"log": l, "n": n, "leaf": browser.Str(h)}, &pb.LogInclusionProofRequest{Log: lr, TreeSize: n, MtlHash: h}, proof(h))
			}
			for _, m := range webSizes() {
				add(fmt.Sprintf("getInclusionProofByIndex(%d, %d) of %s", n, m, t), `Log(args.log).getInclusionProofByIndex(args.n, args.m, S, F);`, args{"log": l, "n": n, "m": m}, &pb.LogInclusionProofRequest{Log: lr, TreeSize: n, LeafIndex: m}, proof(nil))
				add(fmt.Sprintf("getConsistencyProof(%d, %d) of %s", n, m, t), `Log(args.log).getConsistencyProof(args.n, args.m, S, F);`, args{"log": l, "n": n, "m": m}, &pb.LogConsistencyProofRequest{Log: lr, FromSize: n, TreeSize: m}, func(resp proto.Message, o *browser.Outcome) string {
					r, v := resp.(*pb.LogConsistencyProofResponse), one(o)
					if !sizeIs(v.Get("getFirstSize"), r.FromSize) || !sizeIs(v.Get("getSecondSize"), r.TreeSize) || !samePath(r.AuditPath, v.Get("getAuditPath")) {
						return "another proof"
					}
					return ""
				})
			}
		}
	}
	mr := &pb.MapRef{Account: webAccount, Name: "l"}
	for _, n := range webSizes() {
		add(fmt.Sprintf("map getTreeHead(%d)", n), `Map(args.map).getTreeHead(args.n, S, F);`, args{"map": "l", "n": n}, &pb.MapTreeHashRequest{Map: mr, TreeSize: n}, func(resp proto.Message, o *browser.Outcome) string {
			r := resp.(*pb.MapTreeHashResponse)
			h, ok := browser.AsMapHead(one(o))
			if !ok || !bytes.Equal(h.RootHash, r.RootHash) || h.MutationLog.TreeSize != r.MutationLog.GetTreeSize() || !bytes.Equal(h.MutationLog.RootHash, r.MutationLog.GetRootHash()) {
				return "another head"
			}
			return ""
		})
		for i, k := range keys() {
			if n > 3 && n < 1<<31 && i > 3 {
				continue
			}
			for f := range factories {
				if f > 0 && i > 3 {
					continue
				}
				add(fmt.Sprintf("getValue(%q, %d, %s)", k, n, factories[f]), `Map(args.map).getValue(args.k, args.n, `+factories[f]+`, S, F);`, args{"map": "l", "n": n, "k": browser.Str(k)}, &pb.MapGetValueRequest{Map: mr, TreeSize: n, Key: k}, func(resp proto.Message, o *browser.Outcome) string {
					r, v := resp.(*pb.MapGetValueResponse), one(o)
					if b, ok := v.Get("getKey").Bytes(); !ok || !bytes.Equal(b, k) {
						return "another key"
					}
					p := v.Get("getAuditPath").A
					if !sizeIs(v.Get("getTreeSize"), r.TreeSize) || len(p) != 256 {
						return "another proof"
					}
					for j := range p {
						var want []byte
						if j < len(r.AuditPath) {
							want = r.AuditPath[j]
						}
						if b, ok := p[j].Bytes(); len(want) == 0 && !p[j].Null || len(want) > 0 && (!ok || !bytes.Equal(b, want)) {
							return fmt.Sprintf("another proof at %d", j)
						}
					}
					return sameEntry(f, r.Value, v.Get("getValue"))
				})
			}
		}
	}
	return rv
}

// webDocs are JSON documents to be stored.
var webDocs = []string{`{}`, `[]`, `null`, `true`, `"x"`, `7`, `-0.5`, `{"a":1}`, `{"a":"é","é":"☃","😀":["\u00e9","😀"]}`, `{"a":{"b":[1,2,{"c":null}]},"z":""}`, `"\u2028<>&"`, " [1 ,\n2]\t", `[1e300,0.1,123456789012]`, ``, `{`, `nope`}

// webWrites are the calls that write.
func webWrites() []webCall {
	var rv []webCall
	stored := func(resp proto.Message) func(o *browser.Outcome) string {
		var h []byte
		switch r := resp.(type) {
		case *pb.LogAddEntryResponse:
			h = r.LeafHash
		case *pb.MapSetValueResponse:
			h = r.LeafHash
		}
		return func(o *browser.Outcome) string {
			if b, ok := one(o).Get("getLeafHash").Bytes(); !ok || !bytes.Equal(b, h) {
				return fmt.Sprintf("not the leaf hash %x", h)
			}
			return ""
		}
	}
	check := func(resp proto.Message, o *browser.Outcome) string { return stored(resp)(o) }
	value := func(req proto.Message) **pb.LeafData {
		switch r := req.(type) {
		case *pb.LogAddEntryRequest:
			return &r.Value
		case *pb.MapSetValueRequest:
			return &r.Mutation.Value
		}
		return nil
	}
	// redactable: as an entry of the document, but for its nonces
	redactable := func(doc string) func(want, got proto.Message) bool {
		return func(want, got proto.Message) bool {
			want, got = proto.Clone(want), proto.Clone(got)
			if reflect.TypeOf(want) != reflect.TypeOf(got) || value(got) == nil {
				return false
			}
			v := *value(got)
			*value(got), *value(want) = nil, nil
			if !proto.Equal(want, got) || verifiable.ValidateJSONLeafData(ctx, v) != nil || v.Format != pb.DataFormat_JSON {
				return false
			}
			shed, err := verifiable.ShedRedactedJSONFields(v.ExtraData)
			var a, b interface{}
			return err == nil && json.Unmarshal(shed, &a) == nil && json.Unmarshal([]byte(doc), &b) == nil && reflect.DeepEqual(a, b)
		}
	}
	l := &pb.LogRef{Account: webAccount, Name: "l"}
	m := &pb.MapRef{Account: webAccount, Name: "l"}
	for _, v := range values() {
		e := &pb.LeafData{LeafInput: v.GetLeafInput()}
		rv = append(rv, webCall{name: fmt.Sprintf("add(%.20q)", e.LeafInput), code: `Log(args.log).add(new RawDataEntry(args.data), S, F);`, args: args{"log": browser.Log("l", ltLog), "data": browser.Str(e.LeafInput)}, req: &pb.LogAddEntryRequest{Log: l, Value: e}, ok: check})
	}
	for i, k := range keys() {
		vs := values()
		e := &pb.LeafData{LeafInput: vs[i%len(vs)].GetLeafInput()}
		rv = append(rv, webCall{name: fmt.Sprintf("setValue(%.20q, %.20q)", k, e.LeafInput), code: `Map(args.map).setValue(args.k, new RawDataEntry(args.data), S, F);`, args: args{"map": "l", "k": browser.Str(k), "data": browser.Str(e.LeafInput)}, req: &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: k, Value: e}}, ok: check},
			webCall{name: fmt.Sprintf("deleteValue(%.20q)", k), code: `Map(args.map).deleteValue(args.k, S, F);`, args: args{"map": "l", "k": browser.Str(k)}, req: &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "delete", Key: k}}, ok: check})
	}
	for _, d := range webDocs {
		e, err := verifiable.CreateJSONLeafData([]byte(d))
		a, am := &pb.LogAddEntryRequest{Log: l, Value: e}, &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: e}}
		var reqs [2]proto.Message
		if err == nil {
			reqs = [2]proto.Message{a, am}
		}
		rv = append(rv, webCall{name: fmt.Sprintf("add JSON %s", d), code: `Log(args.log).add(new JsonEntry(args.data), S, F);`, args: args{"log": browser.Log("l", ltLog), "data": d}, req: reqs[0], ok: check},
			webCall{name: fmt.Sprintf("setValue of JSON %s", d), code: `Map(args.map).setValue("k", new JsonEntry(args.data), S, F);`, args: args{"map": "l", "data": d}, req: reqs[1], ok: check},
			webCall{name: fmt.Sprintf("add redactable JSON %s", d), code: `Log(args.log).add(new RedactableJsonEntry(args.data), S, F);`, args: args{"log": browser.Log("l", ltLog), "data": d}, req: reqs[0], same: redactable(d), ok: check},
			webCall{name: fmt.Sprintf("setValue of redactable JSON %s", d), code: `Map(args.map).setValue("k", new RedactableJsonEntry(args.data), S, F);`, args: args{"map": "l", "data": d}, req: reqs[1], same: redactable(d), ok: check})
	}
	return rv
}

// reason is what the browser client makes of an error.
func reason(err error) string {
	switch err {
	case verifiable.ErrInvalidRequest:
		return "CONTINUSEC_INVALID_RANGE_ERROR"
	case verifiable.ErrNotFound:
		return "CONTINUSEC_NOT_FOUND_ERROR"
	}
	switch status.Code(err) {
	case codes.InvalidArgument:
		return "CONTINUSEC_INVALID_RANGE_ERROR"
	case codes.NotFound:
		return "CONTINUSEC_NOT_FOUND_ERROR"
	case codes.PermissionDenied:
		return "CONTINUSEC_UNAUTHORIZED_ERROR"
	}
	return "CONTINUSEC_INTERNAL_ERROR"
}

// visit runs a call of the browser client on a page.
func (p *page) visit(x *mck.X, cross bool, code string, a args, waits int) *browser.Outcome {
	s := browser.Handle(p.h)
	if cross {
		s = browser.HandleFrom(p.h, "http://page.example")
	}
	o, err := browser.Run(s, browser.Code(code), a, waits)
	if err != nil {
		x.Failf("%v", err)
	}
	return o
}

// judge compares a call with the request that it has made.
func (k *webCall) judge(x *mck.X, p *page, o *browser.Outcome) {
	ended := o.Ended()
	x.Assert(ended == "", "%s %s", k.name, ended)
	n, req, resp, err := p.tap.got()
	_, good := o.OK()
	if n == 0 {
		x.Assert(!good, "%s never reached the service, but ends in %s", k.name, o)
		x.Assert(k.req == nil || unusual(k.req), "%s never reached the service, and ends in %s", k.name, o)
		return
	}
	x.Assert(n == 1, "%s reached the service %d times", k.name, n)
	x.Assert(k.req != nil, "%s reached the service as %s", k.name, world.Text(req))
	same := k.same
	if same == nil {
		same = func(a, b proto.Message) bool { return proto.Equal(plain(a), plain(b)) }
	}
	x.Assert(same(k.req, req), "%s reached the service as %s", k.name, world.Text(req))
	if err != nil {
		x.Assert(!good, "%s succeeds, but the service fails with %v", k.name, err)
		vs := o.Events[len(o.Events)-1].Args
		x.Assert(len(vs) == 1 && vs[0].S != nil && *vs[0].S == reason(err), "%s fails with %s, and the service with %v", k.name, o, err)
		return
	}
	if !good {
		x.Assert(k.undecodable(resp), "%s fails with %s, and the service answers %s", k.name, o, world.Text(resp))
		return
	}
	bad := k.ok(resp, o)
	x.Assert(bad == "", "%s is answered %s by the service and ends in %s: %s", k.name, world.Text(resp), o, bad)
}

// undecodable says whether an answer has entries that can't be read as asked.
func (k *webCall) undecodable(resp proto.Message) bool {
	if strings.Contains(k.name, factories[0]) {
		return false
	}
	switch r := resp.(type) {
	case *pb.LogFetchEntriesResponse:
		for _, v := range r.Values {
			if unreadable(1, v) {
				return true
			}
		}
		// getEntry of no entry
		return strings.HasPrefix(k.name, "getEntry(") && len(r.Values) == 0
	case *pb.MapGetValueResponse:
		return unreadable(1, r.Value)
	}
	return false
}

// unusual requests need not reach the service.
func unusual(req proto.Message) bool {
	neg := func(n ...int64) bool {
		for _, i := range n {
			if i < 0 {
				return true
			}
		}
		return false
	}
	switch r := req.(type) {
	case *pb.LogTreeHashRequest:
		return neg(r.TreeSize)
	case *pb.LogFetchEntriesRequest:
		return neg(r.First, r.Last)
	case *pb.LogInclusionProofRequest:
		return neg(r.TreeSize, r.LeafIndex)
	case *pb.LogConsistencyProofRequest:
		return neg(r.TreeSize, r.FromSize)
	case *pb.MapTreeHashRequest:
		return neg(r.TreeSize)
	case *pb.MapGetValueRequest:
		return neg(r.TreeSize) || len(r.Key) == 0
	case *pb.MapSetValueRequest:
		return len(r.Mutation.GetKey()) == 0
	}
	return false
}

func webTogether(c *mck.C) {
	reads, writes := webReads(), webWrites()
	stores := []*world.Store{filled(), {}}
	c.Explore("reads", func(x *mck.X) {
		k := reads[x.Choose(len(reads), "call")]
		cross := x.Bool("from another origin")
		p := pages.Get().(*page)
		defer pages.Put(p)
		s := world.On(stores[x.Choose(len(stores), "service")].Clone(), policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
		k.judge(x, p, p.visit(x, cross, k.code, k.args, 0))
		c.State("web read", k.name)
	})
	c.Explore("writes", func(x *mck.X) {
		k := writes[x.Choose(len(writes), "call")]
		cross := x.Bool("from another origin")
		p := pages.Get().(*page)
		defer pages.Put(p)
		db := filled().Clone()
		s := world.On(db, policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
		before := db.Version
		k.judge(x, p, p.visit(x, cross, k.code, k.args, 0))
		if n, _, _, _ := p.tap.got(); n == 0 {
			x.Assert(db.Version == before, "%s never reached the service but had an effect", k.name)
		}
		// what was stored verifies as the client's own entry
		if _, isAdd := k.req.(*pb.LogAddEntryRequest); isAdd && k.same == nil {
			ctor := "RawDataEntry"
			if strings.HasPrefix(k.name, "add JSON") {
				ctor = "JsonEntry"
			}
			o := p.visit(x, cross, `Log(args.log).getTreeHead(0, function (h) { Log(args.log).verifyInclusion(h, new `+ctor+`(args.data), S, F); }, F);`, k.args, 0)
			_, good := o.OK()
			x.Assert(good, "%s: the entry is not found to be included: %s", k.name, o)
		}
		c.State("web write", k.name)
	})
	c.Explore("large entries", func(x *mck.X) {
		n := []int{1 << 16, 70001, 130003, 300007, 1 << 20}[x.Choose(c.Pick(4, 5), "size")]
		kind := x.Choose(3, "kind")
		doc := map[int]string{1: "JSON", 2: "Redactable"}[kind]
		data := string(bytes.Repeat([]byte("entry\x00\xff "), n/8+1)[:n])
		ctor, factory := "RawDataEntry", factories[0]
		if kind > 0 {
			data = `{"a": "` + strings.Repeat("ab\u00e9", n/4) + `", "n": [` + strings.Repeat("1.5,", 300) + `null]}`
			ctor, factory = "JsonEntry", factories[kind]
		}
		send := ctor
		if kind == 2 {
			send = "RedactableJsonEntry"
		}
		p := pages.Get().(*page)
		defer pages.Put(p)
		svc := world.On(&world.Store{}, policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
		a := args{"log": browser.Log("l", ltLog), "map": "l", "data": data}
		if kind == 0 {
			a["data"] = browser.Str([]byte(data))
		}
		end := func(what, code string) *browser.Outcome {
			o := p.visit(x, false, code, a, 40)
			_, good := o.OK()
			x.Assert(o.Ended() == "" && good, "%s of a %s entry of %d bytes ends in %.300s", what, doc, len(data), o)
			return o
		}
		same := func(what string, v browser.Value) {
			b, ok := v.Get("getData").Bytes()
			var g, w interface{}
			if kind == 0 {
				ok = ok && string(b) == data
			} else if d := v.Get("getData"); d.S != nil {
				ok = json.Unmarshal([]byte(*d.S), &g) == nil && json.Unmarshal([]byte(data), &w) == nil
				if kind == 2 {
					ok = ok && reflect.DeepEqual(g, w)
				}
			}
			x.Assert(ok, "%s of a %s entry of %d bytes gives other data", what, doc, len(data))
		}
		end("add", `Log(args.log).add(new `+send+`(args.data), S, F);`)
		end("set", `Map(args.map).setValue("k", new `+send+`(args.data), S, F);`)
		same("getEntry", one(end("getEntry", `Log(args.log).getEntry(0, `+factory+`, S, F);`)))
		same("getValue", one(end("getValue", `Map(args.map).getVerifiedMapState(null, 0, function (s) { Map(args.map).getVerifiedValue("k", s, `+factory+`, S, F); }, F);`)))
		o := end("verifyEntries", `Log(args.log).getTreeHead(0, function (h) { Log(args.log).verifyEntries(null, h, `+factory+`, E, S, F); }, F);`)
		x.Assert(len(o.Events) == 2 && len(o.Events[0].Args) == 2, "verifyEntries of one entry of %d bytes ends in %d calls", len(data), len(o.Events))
		same("verifyEntries", o.Events[0].Args[1])
		c.State("web large", n, kind)
	})
	c.Explore("many entries", func(x *mck.X) {
		n := []int{999, 1000, 1001, 2500}[x.Choose(c.Pick(3, 4), "entries")]
		svc := world.On(&world.Store{}, policy.Open)
		for i := 0; i < n; i++ {
			if _, err := svc.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: webAccount, Name: "l"}, Value: &pb.LeafData{LeafInput: []byte(fmt.Sprint("entry ", i))}}); err != nil {
				x.Failf("%v", err)
			}
		}
		p := pages.Get().(*page)
		defer pages.Put(p)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
		// counts instead of handing over every entry
		o := p.visit(x, false, `
var n = 0, good = true;
Log(args.log).getTreeHead(0, function (h) {
	Log(args.log).verifyEntries(null, h, RAW_DATA_ENTRY_FACTORY, function (i, e) { good = good && i == n && e.getData() == 'entry ' + n; n++; }, function () { S(good && n); }, F);
}, F);`, args{"log": browser.Log("l", ltLog)}, 0)
		x.Assert(o.Ended() == "" && sizeIs(one(o), int64(n)), "verifyEntries of %d entries ends in %s", n, o)
		c.State("web many", n)
	})
	c.Explore("errors of the service", func(x *mck.X) {
		all := append(append([]webCall{}, reads[:40]...), writes[:6]...)
		k := all[x.Choose(len(all), "call")]
		cross := x.Bool("from another origin")
		errs := []error{verifiable.ErrInvalidRequest, verifiable.ErrNotFound, verifiable.ErrInternalError, fmt.Errorf("no")}
		for i := codes.Code(1); i < 18; i++ {
			errs = append(errs, status.Error(i, "no"))
		}
		err := errs[x.Choose(len(errs), "error")]
		p := pages.Get().(*page)
		defer pages.Put(p)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return nil, err })
		k.judge(x, p, p.visit(x, cross, k.code, k.args, 0))
		c.State("web error", k.name, err.Error())
	})
	c.Explore("names, accounts and API keys", func(x *mck.X) {
		ks := []string{"", "k", "two words", "a  b", "Key x", "a,b;c=\"d'\\", "*", "%41", "very long " + strings.Repeat("k", 3000)}
		accs := []string{"0", "1", "00", "18446744073709551616", "", "a", "-1", "0 ", "0?x=1", "0#x", "0/log/l", "0/..", "0/../1", "0%2f", "%30", "０", "0\n", "0/map/m", "1/log/l/tree/0?", "é"}
		ns := append(append([]string{}, names...), "x/tree/1?", "x/log/mutation", "l/tree/1?", "l/../m", "m/../../log/l", "☃")
		var codes []string
		for _, f := range []string{`Log({type: 0, name: args.name}).getTreeHead(2, S, F);`, `Log({type: 1, name: args.name}).getTreeHead(2, S, F);`, `Log({type: 2, name: args.name}).getEntries(0, 1, RAW_DATA_ENTRY_FACTORY, E, S, F);`,
			`Log({type: 0, name: args.name}).add(new RawDataEntry('x'), S, F);`, `Map(args.name).setValue('k', new RawDataEntry('x'), S, F);`, `Map(args.name).getValue('k', 2, RAW_DATA_ENTRY_FACTORY, S, F);`, `Map(args.name).deleteValue('k', S, F);`, `Map(args.name).getTreeHead(1, S, F);`} {
			codes = append(codes, f)
		}
		code := codes[x.Choose(len(codes), "call")]
		acc, key, name := "1", "key", "m"
		switch x.Choose(3, "varied") {
		case 0:
			name = ns[x.Choose(len(ns), "name")]
			if !utf8.ValidString(name) {
				x.Prune()
			}
		case 1:
			acc = accs[x.Choose(len(accs), "account")]
		default:
			key = ks[x.Choose(len(ks), "key")]
		}
		p := pages.Get().(*page)
		defer pages.Put(p)
		s := world.On(filledMore().Clone(), policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
		o := p.visit(x, x.Bool("from another origin"), code, args{"account": acc, "key": key, "name": name}, 0)
		ended := o.Ended()
		what := fmt.Sprintf("%s for name %q, account %q, key %q", code, name, acc, key)
		x.Assert(ended == "", "%s %s", what, ended)
		n, req, _, err := p.tap.got()
		_, good := o.OK()
		if n == 0 {
			x.Assert(!good, "%s never reached the service, but ends in %s", what, o)
			plainName := name != "" && strings.Trim(name, "abcdefghijklmnopqrstuvwxyz0123456789-_") == ""
			plainAcc := acc != "" && strings.Trim(acc, "0123456789") == ""
			x.Assert(!plainName || !plainAcc, "%s never reached the service: %s", what, o)
			return
		}
		ga, gn := (*pb.AccountRef)(nil), ""
		setRef(req, func(a **pb.AccountRef, s *string, _ *pb.LogType) { ga, gn = *a, *s })
		x.Assert(n == 1 && ga.GetId() == acc && gn == name && ga.GetApiKey() == key, "%s reached the service as %s", what, world.Text(req))
		x.Assert(good == (err == nil), "%s: the service fails with %v, the client ends in %s", what, err, o)
		c.State("web names", code, acc, key, name)
	})
	c.Explore("verified calls", func(x *mck.X) {
		h := holding()
		p := pages.Get().(*page)
		defer pages.Put(p)
		s := world.On(filled().Clone(), policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
		t := []pb.LogType{ltLog, ltMut, ltHead}[x.Choose(3, "log")]
		l := &verifiable.Log{Service: s, Log: &pb.LogRef{Account: webAccount, Name: "l", LogType: t}}
		m := world.Map(s, "l")
		lg := browser.Log("l", t)
		headAt := func(n int) *pb.LogTreeHashResponse {
			if n == 0 {
				return nil
			}
			r, err := l.TreeHead(ctx, int64(n))
			must(err)
			return r
		}
		run := func(code string, a args) *browser.Outcome {
			o := p.visit(x, false, code, a, 0)
			x.Assert(o.Ended() == "", "%s %v %s", code, a, o.Ended())
			return o
		}
		a, b := x.Choose(filledN+1, "a"), x.Choose(filledN+1, "b")
		what := x.Choose(8, "call")
		if what >= 6 && t != ltLog {
			x.Prune()
		}
		name := fmt.Sprintf("%s, %d, %d, call %d", t, a, b, what)
		var o *browser.Outcome
		switch what {
		case 0:
			o = run(`var l = Log(args.log); if (args.n === 0) { l.getVerifiedLatestTreeHead(Head(args.prev), S, F); } else { l.getVerifiedTreeHead(Head(args.prev), args.n, S, F); }`, args{"log": lg, "prev": browser.Head(headAt(a)), "n": b})
			want := headAt(b)
			if b == 0 {
				want = headAt(filledN)
			}
			x.Assert(sameHead(want, one(o)), "head %d after %d of %s: %s", b, a, t, o)
		case 1:
			if a == 0 || b == 0 {
				x.Prune()
			}
			o = run(`Log(args.log).verifyConsistency(Head(args.a), Head(args.b), S, F);`, args{"log": lg, "a": browser.Head(headAt(a)), "b": browser.Head(headAt(b))})
			_, good := o.OK()
			x.Assert(good, "consistency of %d and %d of %s: %s", a, b, t, o)
		case 2:
			if a == 0 {
				x.Prune()
			}
			es, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l.Log, First: 0, Last: filledN})
			must(err)
			if b == filledN {
				b = 0
			}
			first := b // equal entries: any will do, so it's the first that must be in
			for i := range es.Values[:b+1] {
				if bytes.Equal(es.Values[i].LeafInput, es.Values[b].LeafInput) {
					first = i
					break
				}
			}
			o = run(`Log(args.log).verifyInclusion(Head(args.a), Leaf(args.leaf), S, F);`, args{"log": lg, "a": browser.Head(headAt(a)), "leaf": browser.Str(ref.Leaf(es.Values[b].LeafInput))})
			_, good := o.OK()
			x.Assert(good == (first < a), "inclusion of %d in %d of %s: %s", b, a, t, o)
		case 3:
			if b == filledN || b >= a {
				x.Prune()
			}
			pr, err := l.InclusionProofByIndex(ctx, int64(a), int64(b))
			must(err)
			es, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l.Log, First: 0, Last: filledN})
			must(err)
			pv := x.Choose(filledN+1, "previous")
			o = run(`Log(args.log).verifySuppliedInclusionProof(Head(args.prev), new LogInclusionProof(args.leaf, args.n, args.i, args.path), S, F);`, args{"log": lg, "prev": browser.Head(headAt(pv)), "leaf": browser.Str(ref.Leaf(es.Values[b].LeafInput)), "n": pr.TreeSize, "i": pr.LeafIndex, "path": browser.Path(pr.AuditPath)})
			x.Assert(sameHead(headAt(a), one(o)), "supplied proof of %d in %d of %s after %d: %s", b, a, t, pv, o)
		case 4, 5:
			if b == 0 {
				x.Prune()
			}
			f := what - 4
			sound := true // for JSON, the entries must be that
			if f == 1 && a < b {
				es, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l.Log, First: int64(a), Last: int64(b)})
				must(err)
				for _, e := range es.Values {
					// the browser client takes empty entries for what stands for deleted values
					sound = sound && (verifiable.ValidateJSONLeafData(ctx, e) == nil || len(e.LeafInput) == 0 && len(e.ExtraData) == 0)
				}
			}
			o = run(`Log(args.log).verifyEntries(Head(args.a), Head(args.b), `+factories[f]+`, E, S, F);`, args{"log": lg, "a": browser.Head(headAt(a)), "b": browser.Head(headAt(b))})
			_, good := o.OK()
			x.Assert(good == sound && (!good || len(o.Events) == max(b-a, 0)+1), "entries of %s from %d to %d: %s", t, a, b, o)
		case 6:
			if a == b && a > 0 {
				x.Prune()
			}
			o = run(`var m = Map(args.map); if (args.n === 0) { m.getVerifiedLatestMapState(State(args.prev), S, F); } else { m.getVerifiedMapState(State(args.prev), args.n, S, F); }`, args{"map": "l", "prev": browser.State(h.states[a]), "n": b})
			want, err := m.VerifiedMapState(ctx, h.states[a], int64(b))
			must(err)
			st, ok := browser.AsState(one(o))
			x.Assert(ok && proto.Equal(st.MapTreeHead, want.MapTreeHead) && proto.Equal(st.TreeHeadLogTreeHead, want.TreeHeadLogTreeHead) || a == filledN && b == 0, "map state %d after %d: %s", b, a, o)
		case 7:
			if a == 0 {
				x.Prune()
			}
			k := []string{"k0", "k1", "k2", "k3", "absent", "\xff", "k0"}[b]
			o = run(`Map(args.map).getVerifiedValue(args.k, State(args.state), RAW_DATA_ENTRY_FACTORY, S, F);`, args{"map": "l", "k": browser.Str([]byte(k)), "state": browser.State(h.states[a])})
			want, err := m.VerifiedGet(ctx, []byte(k), h.states[a])
			must(err)
			bad := sameEntry(0, want, one(o))
			x.Assert(bad == "", "value of %q at %d: %s: %s", k, a, o, bad)
		}
		c.State("web verified", name)
	})
	webSeveral(c)
	c.Explore("waiting", func(x *mck.X) {
		// versions of the log and the map: one more entry each
		at := x.Choose(4, "entries at first")
		leafAt := x.Choose(filledN, "awaited")
		every := x.Range(1, 3, "requests per entry")
		isMap := x.Bool("map")
		p := pages.Get().(*page)
		defer pages.Put(p)
		n, last := 0, at
		p.tap.reset(func(req proto.Message) (proto.Message, error) {
			k := min(at+n/every, filledN)
			n++
			last = k
			return world.Call(world.On(growth()[k].Clone(), policy.Open), req)
		})
		var o *browser.Outcome
		if isMap {
			o = p.visit(x, false, `Map(args.map).blockUntilSize(args.n, S, F);`, args{"map": "l", "n": leafAt + 1}, 60)
			h, ok := browser.AsMapHead(one(o))
			x.Assert(o.Ended() == "" && ok && h.MutationLog.TreeSize >= int64(leafAt+1), "waiting for size %d from %d, another every %d requests: %s", leafAt+1, at, every, o)
			_, want := growthHead(int(h.MutationLog.TreeSize))
			x.Assert(proto.Equal(plain(want), plain(h)), "waiting for size %d from %d gives %v, not %v", leafAt+1, at, h, want)
		} else {
			leaf := ref.Leaf([]byte(fmt.Sprint("entry ", leafAt)))
			o = p.visit(x, false, `Log(args.log).blockUntilPresent(Leaf(args.leaf), S, F);`, args{"log": browser.Log("l", ltLog), "leaf": browser.Str(leaf)}, 60)
			v := one(o)
			h, ok := browser.AsHead(v)
			x.Assert(o.Ended() == "" && ok && h.TreeSize > int64(leafAt), "waiting for entry %d from %d, another every %d requests: %s", leafAt, at, every, o)
			want, _ := growthHead(int(h.TreeSize))
			x.Assert(sameHead(want, v), "waiting for entry %d from %d gives %v, not %v", leafAt, at, h, want)
		}
		// two requests a round, and rounds a second apart or more
		x.Assert(float64(n) <= 2+2*o.Waited/1000, "waiting for %d makes %d requests in %v ms", leafAt, n, o.Waited)
		c.State("web wait", isMap, at, leafAt, every, last)
	})
}

// several are calls that can be made next to each other on the same objects.
func several() []webCall {
	h := holding()
	var rv []webCall
	add := func(name, code string, a args) { rv = append(rv, webCall{name: name, code: code, args: a}) }
	leaf := func(i int) string { return browser.Str(ref.Leaf([]byte(fmt.Sprint("e", i)))) }
	add("a head", `l.getTreeHead(2, S, F);`, nil)
	add("the latest head", `l.getTreeHead(0, S, F);`, nil)
	add("a later head", `l.getVerifiedTreeHead(Head(a.prev), 6, S, F);`, args{"prev": browser.Head(h.heads[3])})
	add("an earlier head", `l.getVerifiedTreeHead(Head(a.prev), 2, S, F);`, args{"prev": browser.Head(h.heads[5])})
	add("the latest verified head", `l.getVerifiedLatestTreeHead(Head(a.prev), S, F);`, args{"prev": browser.Head(h.heads[2])})
	add("consistency", `l.verifyConsistency(Head(a.a), Head(a.b), S, F);`, args{"a": browser.Head(h.heads[3]), "b": browser.Head(h.heads[6])})
	add("inconsistency", `l.verifyConsistency(Head(a.a), Head(a.b), S, F);`, args{"a": browser.Head(h.heads[3]), "b": browser.Head(&pb.LogTreeHashResponse{TreeSize: 6, RootHash: h.heads[2].RootHash})})
	add("inclusion", `l.verifyInclusion(Head(a.a), Leaf(a.leaf), S, F);`, args{"a": browser.Head(h.heads[6]), "leaf": leaf(1)})
	add("inclusion in an earlier head", `l.verifyInclusion(Head(a.a), Leaf(a.leaf), S, F);`, args{"a": browser.Head(h.heads[3]), "leaf": leaf(1)})
	add("exclusion", `l.verifyInclusion(Head(a.a), Leaf(a.leaf), S, F);`, args{"a": browser.Head(h.heads[6]), "leaf": leaf(99)})
	add("inclusion under another root", `l.verifyInclusion(Head(a.a), Leaf(a.leaf), S, F);`, args{"a": browser.Head(&pb.LogTreeHashResponse{TreeSize: 6, RootHash: h.heads[2].RootHash}), "leaf": leaf(1)})
	add("entries", `l.getEntries(1, 4, RAW_DATA_ENTRY_FACTORY, E, S, F);`, nil)
	add("JSON entries", `hl.getEntries(1, 3, JSON_ENTRY_FACTORY, E, S, F);`, nil)
	add("verified entries", `ml.verifyEntries(Head(a.a), Head(a.b), RAW_DATA_ENTRY_FACTORY, E, S, F);`, args{"a": browser.Head(h.muts[2]), "b": browser.Head(h.muts[5])})
	add("all verified entries", `ml.verifyEntries(null, Head(a.b), RAW_DATA_ENTRY_FACTORY, E, S, F);`, args{"b": browser.Head(h.muts[3])})
	add("wrong entries", `ml.verifyEntries(null, Head(a.b), RAW_DATA_ENTRY_FACTORY, E, S, F);`, args{"b": browser.Head(&pb.LogTreeHashResponse{TreeSize: 3, RootHash: h.muts[2].RootHash})})
	add("a value", `m.getVerifiedValue('k1', State(a.state), RAW_DATA_ENTRY_FACTORY, S, F);`, args{"state": browser.State(h.states[4])})
	add("an absent value", `m.getVerifiedValue('absent', State(a.state), RAW_DATA_ENTRY_FACTORY, S, F);`, args{"state": browser.State(h.states[5])})
	add("a value of another map", `n.getVerifiedValue('k1', State(a.state), RAW_DATA_ENTRY_FACTORY, S, F);`, args{"state": browser.State(h.states[4])})
	add("a map state", `m.getVerifiedMapState(State(a.prev), 5, S, F);`, args{"prev": browser.State(h.states[3])})
	add("an earlier map state", `m.getVerifiedMapState(State(a.prev), 2, S, F);`, args{"prev": browser.State(h.states[4])})
	add("the first map state", `m.getVerifiedLatestMapState(null, S, F);`, nil)
	add("another log", `o.getTreeHead(2, S, F);`, nil)
	add("an addition", `l.add(new RawDataEntry('e1'), S, F);`, nil)
	add("another account's head", `p.getTreeHead(2, S, F);`, nil)
	return rv
}

const severalCode = `
var client = Client(), l = client.getVerifiableLog('l'), m = client.getVerifiableMap('l'), ml = m.getMutationLog(), hl = m.getTreeHeadLog(), n = client.getVerifiableMap('m'), o = client.getVerifiableLog('m');
var p = new ContinusecClient('7', 'other', 'http://server.example').getVerifiableLog('l');
var call = [%s];
var begin = function (i, then) {
	if (call[i] === undefined) { return; }
	var on = function (f, end) { return function () { f.apply(null, [String(i)].concat(Array.prototype.slice.call(arguments))); if (end && then) { var t = then; then = null; t(); } }; };
	call[i](on(S, true), on(F, true), on(E, false), args.a[i]);
};
if (args.one) { begin(0, function () { begin(1); }); } else { begin(0); begin(1); begin(2); }`

// webSeveral makes several calls next to each other, or one after another.
func webSeveral(c *mck.C) {
	calls := several()
	run := func(x *mck.X, pick func(n int) int, one bool, ks ...webCall) [3]string {
		p := pages.Get().(*page)
		defer pages.Put(p)
		s := world.On(filled().Clone(), policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(s, req) })
		var code []string
		as := []interface{}{}
		for _, k := range ks {
			code = append(code, "function (S, F, E, a) { "+k.code+" }")
			as = append(as, k.args)
		}
		o, err := browser.RunOrdered(browser.Handle(p.h), browser.Code(fmt.Sprintf(severalCode, strings.Join(code, ", "))), args{"one": one, "a": as}, 0, pick)
		if err != nil {
			x.Failf("%v", err)
		}
		var rv [3]string
		for _, e := range o.Events {
			i := 0
			if len(e.Args) > 0 && e.Args[0].S != nil && len(*e.Args[0].S) == 1 && e.Kind != "throw" {
				i = int((*e.Args[0].S)[0] - '0')
				e.Args = e.Args[1:]
			}
			rv[i] += e.String() + "; "
		}
		return rv
	}
	var alone []string
	var once sync.Once
	prepare := func(x *mck.X) {
		once.Do(func() {
			for _, k := range calls {
				alone = append(alone, run(x, nil, false, k)[0])
			}
		})
	}
	judge := func(x *mck.X, how string, got [3]string, is ...int) {
		for i, k := range is {
			x.Assert(got[i] == alone[k], "%s, %s ends in %s, and alone in %s", how, calls[k].name, got[i], alone[k])
		}
	}
	c.Explore("one call after another", func(x *mck.X) {
		prepare(x)
		i, j := x.Choose(len(calls), "first"), x.Choose(len(calls), "second")
		judge(x, fmt.Sprintf("%s, then %s", calls[i].name, calls[j].name), run(x, nil, true, calls[i], calls[j]), i, j)
		c.State("web after", i, j)
	})
	c.Explore("two calls at once", func(x *mck.X) {
		prepare(x)
		i, j := x.Choose(len(calls), "first"), x.Choose(len(calls), "second")
		judge(x, fmt.Sprintf("%s and %s at once", calls[i].name, calls[j].name), run(x, func(n int) int { return x.Choose(n, "answer") }, false, calls[i], calls[j]), i, j)
		c.State("web both", i, j)
	})
	if c.Quick() {
		return
	}
	c.Explore("three calls at once", func(x *mck.X) {
		prepare(x)
		i, j, k := x.Choose(len(calls), "first"), x.Choose(len(calls), "second"), x.Choose(len(calls), "third")
		judge(x, fmt.Sprintf("%s, %s and %s at once", calls[i].name, calls[j].name, calls[k].name), run(x, func(n int) int { return x.Choose(n, "answer") }, false, calls[i], calls[j], calls[k]), i, j, k)
		c.State("web three", i, j, k)
	})
}

// growth has a log and a map with one more entry each.
var growth = sync.OnceValue(func() []*world.Store {
	db := &world.Store{}
	s := world.On(db, policy.Open)
	acc := &pb.AccountRef{Id: "0"}
	rv := []*world.Store{}
	for i := 0; ; i++ {
		rv = append(rv, db.Clone())
		if i == filledN {
			return rv
		}
		v := world.Leaf(fmt.Sprint("entry ", i), "")
		_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: "l"}, Value: v})
		must(err)
		_, err = s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: "l"}, Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i%3)), Value: v}})
		must(err)
	}
})

func growthHead(n int) (*pb.LogTreeHashResponse, *pb.MapTreeHashResponse) {
	s := world.On(growth()[n].Clone(), policy.Open)
	l, err := world.Log(s, "l").TreeHead(ctx, 0)
	must(err)
	m, err := world.Map(s, "l").TreeHead(ctx, 0)
	must(err)
	return l, m
}

// ------------------------------------------------------------ W03

// webHostile answers calls with nonsense.
func webHostile(c *mck.C) {
	var calls []webCall
	seen := map[string]bool{}
	for _, k := range append(webReads(), webWrites()...) {
		n := strings.SplitN(k.name, "(", 2)[0]
		for f := range factories {
			if strings.Contains(k.name, factories[f]) {
				n += factories[f]
			}
		}
		if unusual(k.req) || k.req == nil || seen[n+fmt.Sprintf("%T", k.req)] {
			continue
		}
		// calls whose honest answers have something in them
		switch r := k.req.(type) {
		case *pb.LogTreeHashRequest:
			if r.TreeSize != 3 {
				continue
			}
		case *pb.LogFetchEntriesRequest:
			if r.First != 1 || r.Last != 2 && r.Last != 3 {
				continue
			}
		case *pb.LogInclusionProofRequest:
			if r.TreeSize != 6 || r.MtlHash == nil && r.LeafIndex != 1 {
				continue
			}
		case *pb.LogConsistencyProofRequest:
			if r.FromSize != 3 || r.TreeSize != 5 {
				continue
			}
		case *pb.MapTreeHashRequest:
			if r.TreeSize != 3 {
				continue
			}
		case *pb.MapGetValueRequest:
			if r.TreeSize != 3 || string(r.Key) != "k1" {
				continue
			}
		}
		seen[n+fmt.Sprintf("%T", k.req)] = true
		calls = append(calls, k)
	}
	h := holding()
	lg := browser.Log("l", ltLog)
	multi := func(name, code string, a args) { calls = append(calls, webCall{name: name, code: code, args: a}) }
	leaf := browser.Str(ref.Leaf([]byte("e1")))
	multi("getVerifiedLatestTreeHead", `Log(args.log).getVerifiedLatestTreeHead(Head(args.prev), S, F);`, args{"log": lg, "prev": browser.Head(h.heads[3])})
	multi("getVerifiedTreeHead", `Log(args.log).getVerifiedTreeHead(Head(args.prev), 2, S, F);`, args{"log": lg, "prev": browser.Head(h.heads[3])})
	multi("verifyConsistency", `Log(args.log).verifyConsistency(Head(args.a), Head(args.b), S, F);`, args{"log": lg, "a": browser.Head(h.heads[3]), "b": browser.Head(h.heads[6])})
	multi("verifyInclusion", `Log(args.log).verifyInclusion(Head(args.a), Leaf(args.leaf), S, F);`, args{"log": lg, "a": browser.Head(h.heads[6]), "leaf": leaf})
	multi("verifySuppliedInclusionProof", `Log(args.log).verifySuppliedInclusionProof(Head(args.prev), new LogInclusionProof(args.leaf, args.n, args.i, args.path), S, F);`, args{"log": lg, "prev": browser.Head(h.heads[3]), "leaf": leaf, "n": h.proofs[1].TreeSize, "i": 1, "path": browser.Path(h.proofs[1].AuditPath)})
	for f := range factories {
		multi("verifyEntries "+factories[f], `Log(args.log).verifyEntries(Head(args.a), Head(args.b), `+factories[f]+`, E, S, F);`, args{"log": browser.Log("l", ltMut), "a": browser.Head(h.muts[2]), "b": browser.Head(h.muts[5])})
		multi("getVerifiedValue "+factories[f], `Map(args.map).getVerifiedValue("k0", State(args.state), `+factories[f]+`, S, F);`, args{"map": "l", "state": browser.State(h.states[4])})
	}
	multi("getVerifiedMapState", `Map(args.map).getVerifiedMapState(State(args.prev), 5, S, F);`, args{"map": "l", "prev": browser.State(h.states[3])})
	multi("getVerifiedLatestMapState", `Map(args.map).getVerifiedLatestMapState(State(args.prev), S, F);`, args{"map": "l", "prev": browser.State(h.states[3])})
	multi("getVerifiedMapState after none", `Map(args.map).getVerifiedMapState(null, 5, S, F);`, args{"map": "l"})
	multi("blockUntilPresent", `Log(args.log).blockUntilPresent(Leaf(args.leaf), S, F);`, args{"log": lg, "leaf": leaf})
	multi("blockUntilSize", `Map(args.map).blockUntilSize(5, S, F);`, args{"map": "l"})

	menu := func(m string, base liar.Alt) []liar.Alt {
		rv := []liar.Alt{{What: "a network failure"}}
		add := func(what string, status int, h http.Header, body []byte) {
			rv = append(rv, liar.Alt{What: what, HTTP: &liar.HTTP{Status: status, Header: h, Body: body}})
		}
		for s := 200; s < 600; s++ {
			add(fmt.Sprint("status ", s), s, base.HTTP.Header, base.HTTP.Body)
			if s%100 < 10 {
				add(fmt.Sprint("only status ", s), s, http.Header{}, nil)
			}
		}
		if base.HTTP.Status != 200 {
			return rv
		}
		for _, b := range append(variations(base.HTTP.Body), "", " ", "nonsense", "\xff\xfe", string(base.HTTP.Body[:len(base.HTTP.Body)/2]), string(base.HTTP.Body)+"}", "\xef\xbb\xbf"+string(base.HTTP.Body)) {
			add(fmt.Sprintf("%.60q", b), 200, base.HTTP.Header, []byte(b))
		}
		add("no header", 200, http.Header{}, base.HTTP.Body)
		for k, v := range sorts {
			hd := base.HTTP.Header.Clone()
			hd[k] = v
			add(fmt.Sprintf("header %s: %q", k, v), 200, hd, base.HTTP.Body)
		}
		for _, k := range []string{"X-Verified-Treesize", "X-Verified-Proof"} {
			if base.HTTP.Header.Get(k) == "" {
				continue
			}
			for _, v := range []string{"", "0", "-1", "1.5", "x", "99999999999999999999", "Infinity", "NaN", "1,2", "/", "//", "0/", "/00", "256/00", "-1/00", "1e3/00", "0/zz", "0/0", "0/00,0/01", ",,,", "a/b/c", strings.Repeat("7/", 5000), "length/00", "__proto__/00", strings.Repeat("3/"+strings.Repeat("ab", 32)+",", 300)} {
				hd := base.HTTP.Header.Clone()
				hd[k] = []string{v}
				add(fmt.Sprintf("%s: %.40s", k, v), 200, hd, base.HTTP.Body)
			}
		}
		return rv
	}
	// the same trouble with every request from some request on
	c.Explore("lasting trouble", func(x *mck.X) {
		k := calls[x.Choose(len(calls), "call")]
		from := x.Choose(4, "requests before")
		with := x.Choose(3, "answers with")
		st := -1
		if with < 2 {
			st = 200 + x.Choose(400, "status")
			if c.Quick() && st%100 > 11 && st/10 != 42 && st != 599 || from > 0 && c.Quick() && st%100 > 4 && st != 409 && st != 429 {
				x.Prune()
			}
		}
		p := pages.Get().(*page)
		defer pages.Put(p)
		svc := world.On(filled().Clone(), policy.Open)
		p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
		serve := browser.Handle(p.h)
		n := 0
		o, err := browser.Run(func(r *browser.Request) *browser.Answer {
			n++
			w := serve(r)
			switch {
			case n > 200:
				return &browser.Answer{Failed: true}
			case n <= from:
				return w
			case with == 2:
				return &browser.Answer{Failed: true}
			case with == 1:
				return &browser.Answer{Status: st, Header: http.Header{"Retry-After": {"0"}, "Location": {"/v2/account/1/log/l/tree/0"}}}
			}
			w.Status = st
			return w
		}, browser.Code(k.code), k.args, 20)
		if err != nil {
			x.Failf("%v", err)
		}
		x.Assert(n <= 100, "%s makes more than %d requests when from request %d on everything is answered with status %d", k.name, n-1, from, st)
		if strings.HasPrefix(k.name, "blockUntil") && o.Waiting && len(o.Events) == 0 {
			return
		}
		if n <= from {
			x.Prune()
		}
		ended := o.Ended()
		x.Assert(ended == "", "%s %s when from request %d on everything is answered with status %d", k.name, ended, from, st)
		_, good := o.OK()
		x.Assert(!good || st == 200, "%s succeeds when from request %d on everything is answered with status %d", k.name, from, st)
		c.State("web trouble", k.name, from, with, st)
	})
	var cache liar.Cache
	for budget := 1; budget <= c.Pick(1, 2); budget++ {
		c.Explore(fmt.Sprintf("answers with %d deviations", budget), func(x *mck.X) {
			k := calls[x.Choose(len(calls), "call")]
			x.Logf("%s", k.name)
			mk := func() *liar.Server { return &liar.Server{MaxCalls: 100} }
			cache.Deviate(x, fmt.Sprint("web ", k.name, budget), budget, mk, func(s *liar.Server, yes bool) {
				p := pages.Get().(*page)
				defer pages.Put(p)
				svc := world.On(filled().Clone(), policy.Open)
				p.tap.reset(func(req proto.Message) (proto.Message, error) { return world.Call(svc, req) })
				serve := browser.Handle(p.h)
				o, err := browser.Run(func(r *browser.Request) *browser.Answer {
					w := serve(r)
					a := s.Decide(r.Method, r.URL, func() liar.Alt {
						return liar.Alt{What: "as it is", HTTP: &liar.HTTP{Status: w.Status, Header: w.Header, Body: w.Body}}
					}, func(base liar.Alt) []liar.Alt { return menu(k.name, base) })
					if a.HTTP == nil {
						return &browser.Answer{Failed: true}
					}
					return &browser.Answer{Status: a.HTTP.Status, Header: a.HTTP.Header, Body: a.HTTP.Body}
				}, browser.Code(k.code), k.args, 40)
				if err != nil {
					x.Failf("%v", err)
				}
				if !yes {
					return
				}
				if strings.HasPrefix(k.name, "blockUntil") && o.Waiting && len(o.Events) == 0 {
					return // it may well wait
				}
				ended := o.Ended()
				x.Assert(ended == "", "%s %s (%v)", k.name, ended, s.Used)
				if len(s.Used) == 0 {
					_, good := o.OK()
					x.Assert(good || strings.HasSuffix(k.name, " JSON_ENTRY_FACTORY") || strings.HasSuffix(k.name, "REDACTED_JSON_ENTRY_FACTORY"), "%s fails with an honest server: %s", k.name, o)
				}
				for _, e := range o.Events {
					for _, v := range e.Args {
						x.Assert(e.Kind != "failure" || v.S != nil || v.Err != nil, "%s fails with %s (%v)", k.name, o, s.Used)
						x.Assert(e.Kind == "failure" || !v.Undefined && v.Threw == nil, "%s gives %s (%v)", k.name, o, s.Used)
					}
				}
				c.State("web hostile", k.name, fmt.Sprint(s.Used))
			})
		})
	}
}

func init() {
	mck.Register(mck.Check{
		ID:   "W02",
		Rule: "the served continusec.js runs in node against the REST server: every call that makes one request, with every argument of a menu, from the page's own and from another origin, on a filled and an empty service and with every error of a service; every verified call for every pair of sizes of each kind of log and of the map; every pair (thorough: three) of 25 calls on the same objects, one after another and at once with every order of the answers, compared with each alone; and calls that wait, while entries arrive at every pace of a menu",
		Assumptions: []string{
			"node and the stand-in for XMLHttpRequest behave as a browser does",
			"keys and raw data are strings of bytes, and API keys are printable ASCII without spaces around them",
		},
		Budget: 200 * time.Second, ThoroughBudget: 800 * time.Second, MaxRun: 120e9,
		Run: webTogether,
	})
	mck.Register(mck.Check{
		ID:   "W03",
		Rule: "the served continusec.js runs in node: every call, with every single answer to it (pairs in the thorough tier) replaced by a network failure, by every status, by every single change of the answer's JSON by a menu of values, and by malformed headers, ends in one callback",
		Assumptions: []string{
			"node and the stand-in for XMLHttpRequest behave as a browser does",
			"calls that wait for something may go on waiting",
		},
		Budget: 200 * time.Second, ThoroughBudget: 800 * time.Second, MaxRun: 120e9,
		Run: webHostile,
	})
}
