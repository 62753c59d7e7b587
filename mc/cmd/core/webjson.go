package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/browser"
	"verifmc/mck"
	"verifmc/ref"
)

func init() {
	mck.Register(mck.Check{ID: "W04", Budget: 120 * time.Second, ThoroughBudget: 900 * time.Second, Run: runW04,
		Rule: "every JSON document of J01's grammar in its four spellings, every redaction of up to 8 fields of its redactable form, every power of two and its neighbours among the doubles (of both signs, in several spellings), " +
			"and every character of the basic plane and around the ends of the others, alone and between others, in strings and in names, is hashed and shed by the browser client's code (run as it is embedded) and by the library; " +
			"their hashes and documents are the same, and what the library refuses the browser client refuses too",
		Assumptions: []string{"strings are in Unicode normal form C and have no lone surrogates", "strings beginning with the reserved redaction prefix are redacted values, and no names of fields begin with it", "no field is named __proto__",
			"node's JavaScript stands for the browser's", "the object hash is the stand-in's (see DESIGN.md)"}})
}

// webDoc is what the browser client makes of a document.
type webDoc struct{ hash, object, data browser.Value }

const webDocsCode = `
var t = function (f) { try { return f(); } catch (e) { return new Error(String(e)); } };
S(args.docs.map(function (d) {
	var e = args.redacted ? new RedactedJsonEntry(d) : new JsonEntry(d);
	return [t(function () { return e.getLeafHash(); }), args.redacted ? null : t(function () { return objectHash(JSON.parse(d)); }), t(function () { return e.getData(); })];
}));`

// webHashes has the browser client hash documents.
func webHashes(x *mck.X, redacted bool, docs []string) []webDoc {
	o, err := browser.Run(func(*browser.Request) *browser.Answer { return &browser.Answer{Failed: true} }, browser.Code(webDocsCode), map[string]interface{}{"docs": docs, "redacted": redacted}, 0)
	if err != nil {
		panic("mck: " + err.Error())
	}
	vs, ok := o.OK()
	x.Assert(ok && len(vs) == 1 && len(vs[0].A) == len(docs), "hashing %.300q ends in %s", docs, o)
	rv := make([]webDoc, len(docs))
	for i, v := range vs[0].A {
		rv[i] = webDoc{v.A[0], v.A[1], v.A[2]}
	}
	return rv
}

func (d webDoc) refused() bool {
	_, ok := d.hash.Bytes()
	return !ok
}

// judgeDoc compares what the browser client and the library make of a document.
func judgeDoc(x *mck.X, s string, d webDoc) {
	ld, err := verifiable.CreateJSONLeafData([]byte(s))
	if err != nil {
		x.Assert(d.refused(), "%.200q, which the library refuses (%v), has leaf hash %s", s, err, d.hash)
		return
	}
	h, ok := d.hash.Bytes()
	x.Assert(ok && bytes.Equal(h, ref.Leaf(ld.LeafInput)), "the leaf hash of %.200q is %s, the library has %x", s, d.hash, ref.Leaf(ld.LeafInput))
	var o interface{}
	if err := json.Unmarshal([]byte(s), &o); err != nil {
		panic("mck: " + err.Error())
	}
	want, err := objecthash.ObjectHash(o)
	if err != nil {
		panic("mck: " + err.Error())
	}
	h, ok = d.object.Bytes()
	x.Assert(ok && bytes.Equal(h, want), "the object hash of %.200q is %s, the library has %x", s, d.object, want)
	x.Assert(d.data.S != nil && *d.data.S == s, "the data of %.200q is %s", s, d.data)
}

func runW04(c *mck.C) {
	docs := genDocs(2, jScalars, []string{"a", "b"})
	deep := genDocs(3, []interface{}{nil, float64(1), ""}, []string{"a", "b"})
	if !c.Quick() {
		deep = genDocs(3, []interface{}{nil, true, float64(1), "", "x"}, []string{"a", "b"})
	}
	docs = append(docs, deep...)
	c.Note("documents", len(docs))
	const chunk = 32
	c.Explore("documents", func(x *mck.X) {
		blk := x.Choose((len(docs)+chunk-1)/chunk, "block")
		var in []string
		for i := blk * chunk; i < len(docs) && i < (blk+1)*chunk; i++ {
			for style := 0; style < 4; style++ {
				in = append(in, render(docs[i], style))
			}
		}
		for i, d := range webHashes(x, false, in) {
			judgeDoc(x, in[i], d)
			c.State("web doc", in[i])
		}
		c.Trace(1)
	})
	c.Explore("large and deep documents", func(x *mck.X) {
		n := []int{17, 129, 1000, 2000}[x.Choose(4, "size")]
		var o interface{}
		var list []interface{}
		obj := map[string]interface{}{}
		switch x.Choose(5, "shape") {
		case 0: // deep lists
			o = "end"
			for i := 0; i < n; i++ {
				o = []interface{}{o}
			}
		case 1: // deep objects
			o = nil
			for i := 0; i < n; i++ {
				o = map[string]interface{}{"k": o}
			}
			if n > 1000 {
				x.Prune() // their redactable forms are twice as deep
			}
		case 2: // long lists
			for i := 0; i < n; i++ {
				list = append(list, []interface{}{float64(i), float64(i) / 7, fmt.Sprint(i), nil, i%2 == 0}[i%5])
			}
			o = map[string]interface{}{"l": list}
		case 3: // many keys, some of them numbers
			for i := 0; i < n; i++ {
				obj[fmt.Sprint([]string{"", "k", "é", "\x00"}[i%4], i)] = float64(i)
			}
			o = obj
		default: // long keys and strings
			for i := 0; i < 3; i++ {
				obj[strings.Repeat(fmt.Sprint("k", i, "é"), n)] = strings.Repeat("ab\"\u2028\x01", n+i)
			}
			o = obj
		}
		var in []string
		for style := 0; style < 4; style++ {
			in = append(in, render(o, style))
		}
		for i, d := range webHashes(x, false, in) {
			judgeDoc(x, in[i], d)
		}
		rd, err := verifiable.CreateRedactableJSONLeafData([]byte(in[0]))
		x.Assert(err == nil, "redactable leaf data of %.200s: %v", in[0], err)
		d := webHashes(x, true, []string{string(rd.ExtraData)})[0]
		h, ok := d.hash.Bytes()
		x.Assert(ok && bytes.Equal(h, ref.Leaf(rd.LeafInput)), "the leaf hash of the redactable %.200s is %.200s, not %x", in[0], d.hash, ref.Leaf(rd.LeafInput))
		var got interface{}
		x.Assert(d.data.S != nil && json.Unmarshal([]byte(*d.data.S), &got) == nil && canon(got) == canon(o), "shedding the redactable %.200s gives %.200s", in[0], d.data)
		c.State("web large doc", in[0])
		c.Trace(1)
	})
	c.Explore("redactions", func(x *mck.X) {
		blk := x.Choose((len(docs)+chunk-1)/chunk, "block")
		var in []string
		var hashes [][]byte
		var sheds []interface{}
		for i := blk * chunk; i < len(docs) && i < (blk+1)*chunk; i++ {
			o := docs[i]
			rd, err := verifiable.CreateRedactableJSONLeafData([]byte(render(o, 0)))
			x.Assert(err == nil, "redactable leaf data of %s: %v", canon(o), err)
			var r interface{}
			x.Assert(json.Unmarshal(rd.ExtraData, &r) == nil, "redactable form of %s is %q", canon(o), rd.ExtraData)
			nf := min(countFields(o), c.Pick(6, 8))
			for mask := 0; mask < 1<<uint(nf); mask++ {
				next := 0
				shed, red := redact(x, o, r, mask, &next)
				in, hashes, sheds = append(in, canon(red)), append(hashes, ref.Leaf(rd.LeafInput)), append(sheds, shed)
			}
		}
		for i, d := range webHashes(x, true, in) {
			h, ok := d.hash.Bytes()
			x.Assert(ok && bytes.Equal(h, hashes[i]), "the leaf hash of the redacted %.300s is %s, not %x", in[i], d.hash, hashes[i])
			var got interface{}
			x.Assert(d.data.S != nil && json.Unmarshal([]byte(*d.data.S), &got) == nil && canon(got) == canon(sheds[i]), "shedding %.300s gives %s, not %s", in[i], d.data, canon(sheds[i]))
			c.State("web redacted", in[i])
		}
		c.Trace(1)
	})
	c.Explore("numbers", func(x *mck.X) {
		e := x.Range(-1074, 1024, "exponent")
		var in []string
		add := func(f float64) {
			for _, g := range []float64{f, -f} {
				in = append(in, strconv.FormatFloat(g, 'g', -1, 64), strconv.FormatFloat(g, 'e', 20, 64))
				if math.Abs(g) < 1e21 && math.Abs(g) > 1e-10 || g == 0 {
					in = append(in, "["+strconv.FormatFloat(g, 'f', -1, 64)+"]", `{"n":`+strconv.FormatFloat(g, 'f', 30, 64)+`}`)
				}
			}
		}
		if e == 1024 {
			in = []string{"1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1.8e308", "-1.8e308", "1e309", "[1e400]", `{"a":-1e999}`, "0", "-0", "0.0", "-0.0e5", "0e999", "1e-999", "-1e-999", "1E5", "1e+5", "9007199254740993", "123456789012345678901234567890",
				"-", "+1", "1.", ".5", "01", "0x10", "Infinity", "-Infinity", "NaN", "1e", "1_000"}
			for d := 1; d <= 17; d++ {
				for f := 1.0; f < 10; f++ {
					add(f * math.Pow(10, float64(d)))
					add(f / math.Pow(10, float64(d)))
				}
			}
		} else {
			f := math.Ldexp(1, e)
			for _, g := range []float64{f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)), f * 1.5, f * 1.1, f * 1.3333333333333333} {
				add(g)
			}
		}
		for i, d := range webHashes(x, false, in) {
			judgeDoc(x, in[i], d)
			c.State("web number", in[i])
		}
	})
	c.Explore("characters", func(x *mck.X) {
		const step = 512
		blk := x.Choose(0x10000/step+64, "block")
		var rs []rune
		if blk < 0x10000/step {
			for r := rune(blk * step); r < rune(blk+1)*step; r++ {
				if r < 0xd800 || r > 0xdfff {
					rs = append(rs, r)
				}
			}
		} else {
			b := rune(0x10000 + (blk-0x10000/step)*0x4000)
			for i := rune(0); i < 16; i++ {
				rs = append(rs, b+i, b+0x3ff-i, b+0x400+i, b+0x3fff-i)
			}
		}
		if len(rs) == 0 {
			x.Prune()
		}
		var in []string
		for _, r := range rs {
			for _, s := range []string{string(r), "a" + string(r) + "é"} {
				in = append(in, canon(s), render(s, 0), canon(map[string]interface{}{s: 1, "z": s}))
			}
			if r < 0x10000 {
				in = append(in, fmt.Sprintf(`"\u%04x"`, r))
			} else {
				in = append(in, fmt.Sprintf(`["\u%04X\u%04x"]`, 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff))
			}
		}
		normal := webNormal(in)
		for i, d := range webHashes(x, false, in) {
			if normal[i] {
				judgeDoc(x, in[i], d)
			}
		}
		c.State("web characters", blk)
		c.Trace(1)
	})
	c.Explore("malformed", func(x *mck.X) {
		bad := []string{" ", "{", "[1", "nul", "\"a", "{\"a\"}", "[1,]", "{}{}", "1 2", "\x00", "{\"a\":1,}", "'a'", "{a:1}", "+1", "01", "[1]]", "// x\n1", "undefined", "\ufeff1", "\u00a01", "\"\n\"", "\"\\x41\"", "\"\\'\"", "\"\u2028\"", "\"a\" ", "{\"a\":1,\"a\":2}", "{\"a\":1,\"\\u0061\":null}"}
		in := []string{bad[x.Choose(len(bad), "document")]}
		judgeDoc(x, in[0], webHashes(x, false, in)[0])
		c.Eval(true, "web bad", in[0])
	})
}

// webNormal says which documents are in normal form.
func webNormal(docs []string) []bool {
	o, err := browser.Run(func(*browser.Request) *browser.Answer { return &browser.Answer{Failed: true} }, `S(args.docs.map(function (d) { d = JSON.stringify(JSON.parse(d)); return d === d.normalize('NFC') ? 'yes' : 'no'; }));`, map[string]interface{}{"docs": docs}, 0)
	if err != nil {
		panic("mck: " + err.Error())
	}
	vs, ok := o.OK()
	if !ok || len(vs) != 1 || len(vs[0].A) != len(docs) {
		panic("mck: normal forms: " + o.String())
	}
	rv := make([]bool, len(docs))
	for i, v := range vs[0].A {
		rv[i] = v.S != nil && *v.S == "yes"
	}
	return rv
}
