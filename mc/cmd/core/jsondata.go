package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "J01", Budget: 120 * time.Second, Run: runJ01,
		Rule:        "every JSON document of a grammar (8 scalars; arrays of up to 2 and objects of up to 2 named fields of documents of the next smaller depth, depth 3 with a reduced alphabet), in four spellings, with every single edit, and in redactable form with every subset of its object fields at every depth redacted, and leaf data created from what is left; every map mutation of a grid of actions, keys, values, previous hashes and timestamps, with every single change; malformed documents",
		Assumptions: []string{"strings beginning with the reserved redaction prefix stand for redacted values", "JSON numbers are IEEE doubles"}})
}

var jScalars = []interface{}{nil, true, false, float64(0), float64(1), float64(-2.5), "", "é<\x00\n"}

// genDocs are the documents of a depth.
func genDocs(depth int, scalars []interface{}, fields []string) []interface{} {
	docs := append([]interface{}{}, scalars...)
	for d := 1; d < depth; d++ {
		sub := docs
		docs = append([]interface{}{}, scalars...)
		docs = append(docs, []interface{}{}, map[string]interface{}{})
		for _, a := range sub {
			docs = append(docs, []interface{}{a})
			for _, f := range fields {
				docs = append(docs, map[string]interface{}{f: a})
			}
			for _, b := range sub {
				docs = append(docs, []interface{}{a, b})
				if len(fields) > 1 {
					docs = append(docs, map[string]interface{}{fields[0]: a, fields[1]: b})
				}
			}
		}
	}
	return docs
}

// render writes a document in one of several equivalent spellings.
func render(o interface{}, style int) string {
	switch v := o.(type) {
	case []interface{}:
		var p []string
		for _, e := range v {
			p = append(p, render(e, style))
		}
		switch style {
		case 1:
			return "[ " + strings.Join(p, " ,\n\t") + "\r\n]"
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]interface{}:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if style == 2 {
			for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
		var p []string
		for _, k := range ks {
			s := ":"
			if style == 1 {
				s = " : "
			}
			p = append(p, render(k, style)+s+render(v[k], style))
		}
		if style == 1 {
			return "\n{ " + strings.Join(p, " , ") + " }"
		}
		return "{" + strings.Join(p, ",") + "}"
	case string:
		if style == 3 {
			s := `"`
			for _, r := range v {
				s += fmt.Sprintf(`\u%04x`, r)
			}
			return s + `"`
		}
	case float64:
		if style == 3 {
			return fmt.Sprintf("%e", v)
		}
	}
	b, _ := json.Marshal(o)
	return string(b)
}

// edits are the documents one edit away.
func edits(o interface{}) []interface{} {
	var rv []interface{}
	for _, s := range jScalars {
		rv = append(rv, s)
	}
	rv = append(rv, []interface{}{}, map[string]interface{}{}, []interface{}{o}, map[string]interface{}{"a": o}, "other")
	switch v := o.(type) {
	case []interface{}:
		rv = append(rv, append(append([]interface{}{}, v...), nil))
		for i := range v {
			rv = append(rv, append(append([]interface{}{}, v[:i]...), v[i+1:]...))
			for _, e := range edits(v[i]) {
				n := append([]interface{}{}, v...)
				n[i] = e
				rv = append(rv, n)
			}
		}
		if len(v) == 2 {
			rv = append(rv, []interface{}{v[1], v[0]})
		}
	case map[string]interface{}:
		cp := func() map[string]interface{} {
			n := map[string]interface{}{}
			for k, e := range v {
				n[k] = e
			}
			return n
		}
		n := cp()
		n["zz"] = nil
		rv = append(rv, n)
		for k := range v {
			n := cp()
			delete(n, k)
			rv = append(rv, n)
			n = cp()
			n[k+"x"] = n[k]
			delete(n, k)
			rv = append(rv, n)
			n = cp()
			n[strings.ToUpper(k)] = n[k]
			if strings.ToUpper(k) != k {
				delete(n, k)
			}
			rv = append(rv, n)
			for _, e := range edits(v[k]) {
				n := cp()
				n[k] = e
				rv = append(rv, n)
			}
		}
	}
	return rv
}

func canon(o interface{}) string {
	b, err := json.Marshal(o)
	if err != nil {
		panic("mck: " + err.Error())
	}
	return string(b)
}

// fieldPaths lists every object field at every depth of a document, parents
// before children.
func countFields(o interface{}) int {
	n := 0
	switch v := o.(type) {
	case []interface{}:
		for _, e := range v {
			n += countFields(e)
		}
	case map[string]interface{}:
		for _, e := range v {
			n += 1 + countFields(e)
		}
	}
	return n
}

// redact redacts, in the redactable form r of document o, the fields whose bit
// in mask is set (numbered in a depth-first walk with sorted field names), and
// returns o without them.
func redact(x *mck.X, o, r interface{}, mask int, next *int) (shed, red interface{}) {
	switch v := o.(type) {
	case []interface{}:
		rl, ok := r.([]interface{})
		x.Assert(ok && len(rl) == len(v), "redactable form of %s is %s", canon(o), canon(r))
		s, d := []interface{}{}, []interface{}{}
		for i := range v {
			a, b := redact(x, v[i], rl[i], mask, next)
			s, d = append(s, a), append(d, b)
		}
		return s, d
	case map[string]interface{}:
		rm, ok := r.(map[string]interface{})
		x.Assert(ok && len(rm) == len(v), "redactable form of %s is %s", canon(o), canon(r))
		s, d := map[string]interface{}{}, map[string]interface{}{}
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			me := *next
			*next++
			t, ok := rm[k].([]interface{})
			x.Assert(ok && len(t) == 2, "field %q of the redactable form of %s is %s", k, canon(o), canon(rm[k]))
			nonce, ok := t[0].(string)
			x.Assert(ok && len(nonce) >= 16, "field %q of the redactable form of %s has nonce %s", k, canon(o), canon(t[0]))
			a, b := redact(x, v[k], t[1], mask, next)
			tuple := []interface{}{t[0], b}
			if mask>>uint(me)&1 == 1 {
				h, err := objecthash.ObjectHashWithStdRedaction(tuple)
				if err != nil {
					panic("mck: " + err.Error())
				}
				d[k] = "***REDACTED*** Hash: " + hex.EncodeToString(h)
			} else {
				s[k] = a
				d[k] = tuple
			}
		}
		return s, d
	}
	x.Assert(canon(o) == canon(r), "redactable form of %s is %s", canon(o), canon(r))
	return o, r
}

func validates(ld *pb.LeafData) bool { return verifiable.ValidateJSONLeafData(ctx, ld) == nil }

func runJ01(c *mck.C) {
	docs := genDocs(2, jScalars, []string{"a", "b"})
	deep := genDocs(3, []interface{}{nil, float64(1), ""}, []string{"a", "b"})
	if !c.Quick() {
		deep = genDocs(3, []interface{}{nil, true, float64(1), "", "x"}, []string{"a", "b"})
	}
	docs = append(docs, deep...)
	var mu sync.Mutex
	seen := map[string]string{}
	c.Note("documents", len(docs))
	const chunk = 16
	c.Explore("documents", func(x *mck.X) {
		blk := x.Choose((len(docs)+chunk-1)/chunk, "block")
		for i := blk * chunk; i < len(docs) && i < (blk+1)*chunk; i++ {
			oneDoc(x, docs[i], &mu, seen)
			c.State("doc", canon(docs[i]))
		}
		c.Trace(1)
	})
	c.Explore("malformed", func(x *mck.X) {
		bad := []string{"", " ", "{", "[1", "nul", "\"a", "{\"a\"}", "[1,]", "{}{}", "1 2", "\x00", "{\"a\":1,}", "'a'", "{a:1}", "+1", "01", "[1]]", "\xff"}
		b := []byte(bad[x.Choose(len(bad), "document")])
		_, err := verifiable.CreateJSONLeafData(b)
		x.Assert(err != nil, "leaf data created from the malformed document %q", b)
		_, err = verifiable.CreateRedactableJSONLeafData(b)
		x.Assert(err != nil, "redactable leaf data created from the malformed document %q", b)
		good, _ := verifiable.CreateJSONLeafData([]byte("{}"))
		for _, in := range [][]byte{nil, b, good.LeafInput} {
			x.Assert(!validates(&pb.LeafData{LeafInput: in, ExtraData: b}), "malformed document %q validates", b)
			x.Assert(verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: in, ExtraData: b}) != nil, "malformed mutation %q validates", b)
		}
		_, err = verifiable.ShedRedactedJSONFields(b)
		x.Assert(err != nil, "malformed document %q can be shed", b)
		c.Eval(true, "bad", string(b))
		c.Trace(1)
	})
	c.Explore("reserved strings", func(x *mck.X) {
		h := strings.Repeat("ab", 32)
		r := []string{"***REDACTED*** Hash: ", "***REDACTED*** Hash: zz", "***REDACTED*** Hash: ab", "***REDACTED*** Hash: " + h + "ab", "***REDACTED*** Hash: " + h,
			"***REDACTED*** Hash: " + strings.ToUpper(h), "***REDACTED***", "x***REDACTED*** Hash: " + h}[x.Choose(8, "string")]
		var o interface{} = r
		switch x.Choose(5, "where") {
		case 1:
			o = []interface{}{r}
		case 2:
			o = map[string]interface{}{"a": r}
		case 3:
			o = map[string]interface{}{"a": []interface{}{r, map[string]interface{}{"b": r}}}
		case 4:
			o = map[string]interface{}{r: "a"}
		}
		b := []byte(canon(o))
		for i, f := range []func([]byte) (*pb.LeafData, error){verifiable.CreateJSONLeafData, verifiable.CreateRedactableJSONLeafData} {
			ld, err := f(b)
			x.Assert(err != nil || validates(ld), "leaf data created (%d) from %s does not validate", i, b)
			c.Eval(true, "reserved", i, string(b))
		}
		c.Trace(1)
	})
	mutations(c)
}

func oneDoc(x *mck.X, o interface{}, mu *sync.Mutex, seen map[string]string) {
	c := x.C
	can := canon(o)
	var in []byte
	for style := 0; style < 4; style++ {
		s := render(o, style)
		ld, err := verifiable.CreateJSONLeafData([]byte(s))
		x.Assert(err == nil, "leaf data of %q: %v", s, err)
		x.Assert(string(ld.ExtraData) == s && ld.Format == pb.DataFormat_JSON, "leaf data of %q holds %q, format %v", s, ld.ExtraData, ld.Format)
		x.Assert(validates(ld), "leaf data of %q does not validate", s)
		if style == 0 {
			in = ld.LeafInput
			want, err := objecthash.ObjectHash(o)
			x.Assert(err == nil && bytes.Equal(in, want), "leaf input of %s is %x, the object hash is %x", s, in, want)
		}
		x.Assert(bytes.Equal(in, ld.LeafInput), "%q and %q are the same document with leaf inputs %x and %x", s, render(o, 0), ld.LeafInput, in)
	}
	ld, err := verifiable.CreateJSONLeafDataFromObject(o)
	x.Assert(err == nil && bytes.Equal(ld.LeafInput, in) && validates(ld) && ld.Format == pb.DataFormat_JSON, "leaf data from object %s: %v %v", can, ld, err)
	var back interface{}
	x.Assert(json.Unmarshal(ld.ExtraData, &back) == nil && canon(back) == can, "leaf data from object %s holds %s", can, ld.ExtraData)
	mu.Lock()
	old, ok := seen[string(in)]
	seen[string(in)] = can
	mu.Unlock()
	x.Assert(!ok || old == can, "documents %s and %s have the same leaf input", old, can)
	for _, e := range edits(o) {
		ec := canon(e)
		if ec == can {
			continue
		}
		x.Assert(!validates(&pb.LeafData{LeafInput: in, ExtraData: []byte(ec), Format: pb.DataFormat_JSON}), "document %s validates against the leaf input of %s", ec, can)
		c.Eval(true, "edit", can, ec)
	}
	for i := 0; i < len(in); i++ {
		b := append([]byte{}, in...)
		b[i] ^= 1
		x.Assert(!validates(&pb.LeafData{LeafInput: b, ExtraData: []byte(can)}), "%s validates with a wrong leaf input", can)
	}
	for _, b := range [][]byte{nil, in[:31], append(append([]byte{}, in...), 0), []byte(can)} {
		x.Assert(!validates(&pb.LeafData{LeafInput: b, ExtraData: []byte(can)}), "%s validates with leaf input %x", can, b)
	}

	// redactable form
	for _, style := range []int{0, 2} {
		s := []byte(render(o, style))
		rd, err := verifiable.CreateRedactableJSONLeafData(s)
		x.Assert(err == nil, "redactable leaf data of %s: %v", s, err)
		x.Assert(rd.Format == pb.DataFormat_JSON && validates(rd), "redactable leaf data of %s (%s) does not validate", s, rd.ExtraData)
		var r interface{}
		x.Assert(json.Unmarshal(rd.ExtraData, &r) == nil, "redactable form of %s is %q", s, rd.ExtraData)
		nf := countFields(o)
		if nf > 8 {
			nf = 8
		}
		for mask := 0; mask < 1<<uint(nf); mask++ {
			next := 0
			shed, red := redact(x, o, r, mask, &next)
			rj := []byte(canon(red))
			x.Assert(validates(&pb.LeafData{LeafInput: rd.LeafInput, ExtraData: rj}), "%s with redactions does not validate: %s", s, rj)
			sj, err := verifiable.ShedRedactedJSONFields(rj)
			x.Assert(err == nil, "shedding %s: %v", rj, err)
			var got interface{}
			x.Assert(json.Unmarshal(sj, &got) == nil && canon(got) == canon(shed), "shedding %s gives %s, want %s", rj, sj, canon(shed))
			// a document that already has redacted fields is a document too
			again, err := verifiable.CreateJSONLeafData(rj)
			x.Assert(err == nil && bytes.Equal(again.LeafInput, rd.LeafInput) && validates(again), "leaf data of the document %s, which has redacted fields: %v %v, want leaf input %x", rj, again, err, rd.LeafInput)
			if mask != 0 && mask&(mask-1) == 0 {
				rr, err := verifiable.CreateRedactableJSONLeafData(rj)
				x.Assert(err == nil && validates(rr), "redactable leaf data of the document %s, which has redacted fields: %v %v does not validate", rj, rr, err)
			}
			c.Eval(true, "redact", can, mask)
		}
		// a change to the redactable form is detected
		for i, e := range edits(r) {
			if i > 60 {
				break
			}
			if ec := canon(e); ec != canon(r) {
				x.Assert(!validates(&pb.LeafData{LeafInput: rd.LeafInput, ExtraData: []byte(ec)}), "changed redactable form %s of %s validates", ec, s)
			}
		}
	}
	c.Transition(1)
}

func mutations(c *mck.C) {
	keys := [][]byte{nil, []byte("k"), {0xff, 0}}
	vals := []*pb.LeafData{nil, {}, {LeafInput: []byte("v")}, {LeafInput: []byte("v"), ExtraData: []byte("{}"), Format: pb.DataFormat_JSON},
		{ExtraData: []byte("x")}, {LeafInput: []byte{0, 0xff}}, {Format: pb.DataFormat_JSON}}
	prevs := [][]byte{nil, []byte("p"), bytes.Repeat([]byte{0xfe}, 32)}
	stamps := []string{"", "2020-01-02T03:04:05Z"}
	actions := []string{"set", "delete", "update", ""}
	var all []*pb.MapMutation
	for _, a := range actions {
		for _, k := range keys {
			for _, v := range vals {
				for _, p := range prevs {
					for _, t := range stamps {
						all = append(all, &pb.MapMutation{Action: a, Key: k, Value: v, PreviousLeafHash: p, Timestamp: t})
					}
				}
			}
		}
	}
	// what the leaf input is documented to cover
	covered := func(m *pb.MapMutation) string {
		v := "none"
		if m.Value != nil {
			v = fmt.Sprintf("%x", m.Value.LeafInput)
		}
		return fmt.Sprintf("%s %x %s %x %s", m.Action, m.Key, v, m.PreviousLeafHash, m.Timestamp)
	}
	ins := make([]*pb.LeafData, len(all))
	for i, m := range all {
		cp := proto.Clone(m).(*pb.MapMutation)
		ld, err := verifiable.CreateJSONLeafDataFromMutation(cp)
		if err != nil {
			ld = nil
		} else if !proto.Equal(cp, m) {
			ld = &pb.LeafData{Format: 99}
		}
		ins[i] = ld
	}
	c.Explore("mutations", func(x *mck.X) {
		i := x.Choose(len(all), "mutation")
		m, ld := all[i], ins[i]
		x.Assert(ld != nil, "leaf data of mutation %v could not be created", m)
		x.Assert(ld.Format != 99, "creating leaf data of mutation %v changed it", m)
		x.Assert(ld.Format == pb.DataFormat_JSON && len(ld.LeafInput) > 0, "leaf data of mutation %v is %v", m, ld)
		x.Assert(verifiable.ValidateJSONLeafDataFromMutation(ld) == nil, "leaf data of mutation %v does not validate", m)
		var got pb.MapMutation
		x.Assert(json.Unmarshal(ld.ExtraData, &got) == nil, "leaf data of mutation %v holds %q", m, ld.ExtraData)
		x.Assert(got.Action == m.Action && bytes.Equal(got.Key, m.Key) && world.SameLeaf(got.Value, m.Value) && (got.Value == nil) == (m.Value == nil) && bytes.Equal(got.PreviousLeafHash, m.PreviousLeafHash) && got.Timestamp == m.Timestamp,
			"leaf data of mutation %v holds %s", m, ld.ExtraData)
		pl, err := verifiable.CreateJSONLeafDataFromProto(m)
		x.Assert(err == nil && validates(pl), "leaf data from proto %v: %v %v", m, pl, err)
		for j, o := range all {
			if ins[j] == nil {
				continue
			}
			same := covered(o) == covered(m)
			x.Assert(bytes.Equal(ins[j].LeafInput, ld.LeafInput) == same, "mutations %v and %v: leaf inputs %x and %x", m, o, ld.LeafInput, ins[j].LeafInput)
			err := verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: ld.LeafInput, ExtraData: ins[j].ExtraData})
			x.Assert((err == nil) == same, "mutation %v against the leaf input of %v: %v", o, m, err)
			c.Eval(true, "mut", i, j)
		}
		for _, s := range []string{"null", "{}", "[]", "1", `"x"`, `{"value":null}`, `{"value":[]}`, `{"key":1}`} {
			err := verifiable.ValidateJSONLeafDataFromMutation(&pb.LeafData{LeafInput: ld.LeafInput, ExtraData: []byte(s)})
			empty := m.Action == "" && len(m.Key) == 0 && m.Value == nil && len(m.PreviousLeafHash) == 0 && m.Timestamp == ""
			x.Assert(err != nil || empty, "%s validates against the leaf input of %v", s, m)
		}
		c.Transition(len(all))
		c.Trace(1)
	})
}
