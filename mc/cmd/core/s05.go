package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/continusec/objecthash"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

const redactedPrefix = "***REDACTED*** Hash: "

// s05Datum is a value that may be stored.
type s05Datum struct {
	name string
	leaf *pb.LeafData
	// what may be filtered: the fields as stored; nil if it cannot be filtered
	fields map[string]interface{}
	// secrets per field: strings that must not show
	secrets map[string][]string
}

func s05JSON(name, doc string, redactable bool, secrets map[string][]string) s05Datum {
	var l *pb.LeafData
	var err error
	if redactable {
		l, err = verifiable.CreateRedactableJSONLeafData([]byte(doc))
	} else {
		l, err = verifiable.CreateJSONLeafData([]byte(doc))
	}
	must(err)
	d := s05Datum{name: name, leaf: l, secrets: secrets}
	var o interface{}
	must(json.Unmarshal(l.ExtraData, &o))
	if m, ok := o.(map[string]interface{}); ok {
		d.fields = m
	}
	return d
}

var s05Fields = []string{"dob", "name", "ssn"}

func s05Data() []s05Datum {
	doc := `{"dob":"SECRETdob","name":"SECRETname","ssn":{"n":"SECRETssn","l":[1,"SECRETdeep"]}}`
	sec := map[string][]string{"dob": {"SECRETdob"}, "name": {"SECRETname"}, "ssn": {"SECRETssn", "SECRETdeep"}}
	rv := []s05Datum{
		s05JSON("redactable object", doc, true, sec),
		s05JSON("plain object", doc, false, sec),
		s05JSON("object with one field", `{"name":"SECRETname"}`, true, sec),
		s05JSON("object with null, bool and number", `{"name":null,"ssn":true,"dob":12.5}`, true, nil),
		s05JSON("empty object", `{}`, true, nil),
		s05JSON("field that looks like a filter", `{"name,ssn":"SECRETa","*":"SECRETb","name":"SECRETname"}`, true, map[string][]string{"name,ssn": {"SECRETa"}, "*": {"SECRETb"}, "name": {"SECRETname"}}),
		s05JSON("array", `["SECRETarray",{"name":"SECRETname"}]`, true, nil),
		s05JSON("string", `"SECRETstring"`, false, nil),
		s05JSON("null", `null`, false, nil),
		{name: "raw", leaf: &pb.LeafData{LeafInput: []byte("input"), ExtraData: []byte("SECRETraw")}},
		{name: "raw that is JSON", leaf: &pb.LeafData{LeafInput: []byte("input2"), ExtraData: []byte(`{"name":"SECRETname","ssn":"SECRETssn"}`)}},
		{name: "of unknown format", leaf: &pb.LeafData{LeafInput: []byte("input3"), ExtraData: []byte(`{"name":"SECRETname","ssn":"SECRETssn"}`), Format: 9}},
		{name: "invalid JSON", leaf: &pb.LeafData{LeafInput: []byte("input4"), ExtraData: []byte(`{"name":"SECRETname"`), Format: pb.DataFormat_JSON}},
		{name: "JSON with something after it", leaf: &pb.LeafData{LeafInput: []byte("input5"), ExtraData: []byte(`{"name":"x"} {"ssn":"SECRETssn"}`), Format: pb.DataFormat_JSON}},
		{name: "JSON without data", leaf: &pb.LeafData{LeafInput: []byte("input6"), Format: pb.DataFormat_JSON}},
		{name: "data without leaf input", leaf: &pb.LeafData{ExtraData: []byte("SECRETraw")}},
	}
	// an object one of whose fields was redacted before it was stored
	pre := rv[0]
	o, err := objecthash.Filtered(map[string]interface{}(pre.fields), "dob,ssn")
	must(err)
	b, err := json.Marshal(o)
	must(err)
	rv = append(rv, s05Datum{name: "object redacted before", leaf: &pb.LeafData{LeafInput: pre.leaf.LeafInput, ExtraData: b, Format: pb.DataFormat_JSON}, fields: o.(map[string]interface{}), secrets: sec})
	return rv
}

// checkFiltered compares what a caller limited to allowed got with the model.
func (d s05Datum) checkFiltered(x *mck.X, where string, got *pb.LeafData, allowed map[string]bool) {
	x.Assert(bytes.Equal(got.GetLeafInput(), d.leaf.LeafInput), "%s: leaf input %x, stored is %x", where, got.GetLeafInput(), d.leaf.LeafInput)
	x.Assert(d.fields != nil, "%s: data that cannot be filtered was served: %q", where, got.GetExtraData())
	var o map[string]interface{}
	err := json.Unmarshal(got.GetExtraData(), &o)
	x.Assert(err == nil && o != nil, "%s: filtered data %q is not an object", where, got.GetExtraData())
	x.Assert(len(o) == len(d.fields), "%s: filtered data %q has other fields than %q", where, got.ExtraData, d.leaf.ExtraData)
	for f, v := range d.fields {
		g, ok := o[f]
		x.Assert(ok, "%s: field %q is missing in %q", where, f, got.ExtraData)
		if allowed[f] {
			a, _ := json.Marshal(v)
			b, _ := json.Marshal(g)
			x.Assert(bytes.Equal(a, b), "%s: field %q, which may be seen, is %s instead of %s", where, f, b, a)
			continue
		}
		h, err := objecthash.ObjectHashWithStdRedaction(v)
		must(err)
		x.Assert(g == redactedPrefix+hex.EncodeToString(h), "%s: field %q, which may not be seen, is %v instead of the hash of the stored value", where, f, g)
		for _, s := range d.secrets[f] {
			x.Assert(!bytes.Contains(got.ExtraData, []byte(s)), "%s: %q shows in %q", where, s, got.ExtraData)
		}
	}
	x.Assert(verifiable.ValidateJSONLeafData(ctx, got) == nil, "%s: filtered data %q does not validate against leaf input %x", where, got.ExtraData, got.LeafInput)
}

// showsNothing checks that an answer contains no secret outside of allowed
// fields, looking through the JSON and base64 of mutation log entries.
func showsNothing(x *mck.X, where string, resp proto.Message, d s05Datum) {
	b, err := proto.Marshal(resp)
	must(err)
	x.Assert(!bytes.Contains(b, []byte("SECRET")), "%s: refused data shows in %q", where, b)
}

func init() {
	mck.Register(mck.Check{
		ID:   "S05",
		Rule: "under a rule with a field filter every read path gives an object whose other fields are the redaction of the stored value, validating against the unchanged leaf input, or refuses; under \"*\" everything is as stored; of up to 2 (thorough: 3) policy lines that grant the read, in one list or two, the first decides which fields show",
		Assumptions: []string{
			"github.com/continusec/objecthash is not available offline; a stand-in with the published construction takes its place",
			"transports are T01's and T02's, which compare them with the local service under a filter too",
		},
		Budget: 120 * time.Second,
		Run:    runS05,
	})
}

func runS05(c *mck.C) {
	data := s05Data()
	var filters [][]string
	for b := 0; b < 8; b++ {
		var l []string
		for i, f := range s05Fields {
			if b>>i&1 == 1 {
				l = append(l, f)
			}
		}
		filters = append(filters, l)
		if len(l) > 1 { // another order
			r := []string{}
			for i := range l {
				r = append(r, l[len(l)-1-i])
			}
			filters = append(filters, r)
		}
	}
	filters = append(filters, []string{"*"}, []string{"nonexistent"}, []string{"ssn", "nonexistent"}, []string{"na"}, []string{"names"}, []string{""}, []string{"NAME"})
	paths := []string{"log entry", "map value", "old map value", "mutation log entry", "mutation log entry of an update", "mutation log entry of an update that failed", "mutation log entry of a delete with a value", "updated map value", "deleted map value", "absent map value", "tree head log", "entries around it"}
	c.Explore("filters", func(x *mck.X) {
		d := data[x.Choose(len(data), "data")]
		filter := filters[x.Choose(len(filters), "filter")]
		path := paths[x.Choose(len(paths), "path")]
		db := &world.Store{}
		open := world.On(db, policy.Open)
		limited := world.On(db, &policy.Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: filter}}}}})
		acc := &pb.AccountRef{Id: "0"}
		l, m := &pb.LogRef{Account: acc, Name: "a"}, &pb.MapRef{Account: acc, Name: "a"}
		mutLog, headLog := &pb.LogRef{Account: acc, Name: "a", LogType: ltMut}, &pb.LogRef{Account: acc, Name: "a", LogType: ltHead}
		allowed := map[string]bool{}
		for _, f := range filter {
			allowed[f] = true
		}
		all := len(filter) == 1 && filter[0] == "*"
		where := fmt.Sprintf("%s, %s, filter %q", path, d.name, filter)
		set := func(act, key string, v *pb.LeafData, prev []byte) {
			_, err := open.MapSetValue(ctx, &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: act, Key: []byte(key), Value: v, PreviousLeafHash: prev}})
			must(err)
			x.C.Transition(1)
		}
		// one checks one piece of data that was served or refused.
		one := func(got *pb.LeafData, err error, resp proto.Message) {
			if all {
				x.Assert(err == nil && world.SameLeaf(got, d.leaf), "%s: all fields are allowed but got %s, %v", where, world.Str(got), err)
				return
			}
			if err != nil {
				x.Assert(d.fields == nil, "%s: refused: %v", where, err)
				x.Assert(!strings.Contains(err.Error(), "SECRET"), "%s: the error shows data: %v", where, err)
				return
			}
			d.checkFiltered(x, where, got, allowed)
		}
		noLeaf := len(d.leaf.LeafInput) == 0 // in a map: no value
		switch path {
		case "log entry", "entries around it":
			other, err := verifiable.CreateRedactableJSONLeafData([]byte(`{"other":"thing"}`))
			must(err)
			for i := 0; i < 3; i++ {
				v := d.leaf
				if i != 1 {
					if path == "log entry" {
						continue
					}
					v = proto.Clone(other).(*pb.LeafData)
					v.LeafInput = append(v.LeafInput, byte(i)) // distinct entries
				}
				_, err := open.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: l, Value: v})
				must(err)
			}
			r, err := limited.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l})
			want := 1
			if path != "log entry" {
				want = 3
			}
			if err != nil {
				one(nil, err, nil)
				break
			}
			x.Assert(len(r.Values) == want, "%s: %d entries", where, len(r.Values))
			one(r.Values[want/2], nil, r)
			if d.fields == nil && !all {
				showsNothing(x, where, r, d)
			}
		case "map value", "old map value", "updated map value":
			if path == "updated map value" {
				set("set", "k", world.Leaf("before", "b"), nil)
				set("update", "k", d.leaf, ref.Leaf([]byte("before")))
			} else {
				set("set", "k", d.leaf, nil)
			}
			size := int64(0)
			if path == "old map value" {
				set("set", "k", world.Leaf("later", "l"), nil)
				set("delete", "k", nil, nil)
				size = 1
			}
			r, err := limited.MapGetValue(ctx, &pb.MapGetValueRequest{Map: m, Key: []byte("k"), TreeSize: size})
			if noLeaf {
				x.Assert(err == nil && len(r.GetValue().GetLeafInput()) == 0 && len(r.GetValue().GetExtraData()) == 0, "%s: %v %v", where, r.GetValue(), err)
				break
			}
			one(r.GetValue(), err, r)
			if err == nil {
				h, err := limited.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: m, TreeSize: size})
				must(err)
				x.Assert(verifiable.VerifyMapInclusionProof(r, []byte("k"), h) == nil, "%s: the filtered value is not proven", where)
			}
		case "deleted map value", "absent map value":
			set("set", "k", d.leaf, nil)
			key := "absent"
			if path == "deleted map value" {
				set("delete", "k", nil, nil)
				key = "k"
			}
			r, err := limited.MapGetValue(ctx, &pb.MapGetValueRequest{Map: m, Key: []byte(key)})
			x.Assert(err == nil, "%s: refused: %v", where, err)
			x.Assert(len(r.Value.GetLeafInput()) == 0 && len(r.Value.GetExtraData()) == 0, "%s: there is a value: %v", where, r.Value)
			h, err := limited.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: m})
			must(err)
			x.Assert(verifiable.VerifyMapInclusionProof(r, []byte(key), h) == nil, "%s: absence is not proven", where)
		case "mutation log entry", "mutation log entry of an update", "mutation log entry of an update that failed", "mutation log entry of a delete with a value":
			switch path {
			case "mutation log entry of a delete with a value":
				set("delete", "k", d.leaf, nil)
			case "mutation log entry":
				set("set", "k", d.leaf, nil)
			case "mutation log entry of an update":
				set("update", "k", d.leaf, ref.Leaf(nil))
			default:
				set("update", "k", d.leaf, []byte("something else"))
			}
			set("delete", "k", nil, nil)
			for i := int64(0); i < 2; i++ {
				r, err := limited.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: mutLog, First: i, Last: i + 1})
				if err != nil {
					x.Assert(i == 0, "%s: the entry of a delete is refused: %v", where, err)
					one(nil, err, nil)
					continue
				}
				x.Assert(len(r.Values) == 1, "%s: %d entries", where, len(r.Values))
				e := r.Values[0]
				raw, err := open.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: mutLog, First: i, Last: i + 1})
				must(err)
				x.Assert(bytes.Equal(e.LeafInput, raw.Values[0].LeafInput), "%s: leaf input differs", where)
				x.Assert(verifiable.ValidateJSONLeafDataFromMutation(e) == nil, "%s: mutation log entry %q does not validate", where, e.ExtraData)
				var a, b pb.MapMutation
				must(json.Unmarshal(e.ExtraData, &a))
				must(json.Unmarshal(raw.Values[0].ExtraData, &b))
				if i == 0 {
					if noLeaf && len(d.leaf.ExtraData) == 0 {
						break
					}
					one(a.Value, nil, r)
				}
				a.Value, b.Value = nil, nil
				x.Assert(proto.Equal(&a, &b), "%s: mutation log entry %v, unfiltered %v", where, &a, &b)
			}
		case "tree head log":
			set("set", "k", d.leaf, nil)
			r, err := limited.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: headLog})
			x.Assert(err == nil && len(r.Values) == 1, "%s: %v", where, err)
			showsNothing(x, where, r, d)
			raw, err := open.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: headLog})
			must(err)
			x.Assert(proto.Equal(r, raw), "%s: %v, unfiltered %v", where, r, raw)
		}
		x.C.State(d.name, strings.Join(filter, "|"), path)
		x.C.Trace(1)
		x.C.Eval(!all, where)
		x.C.Sample(path, "%s", where)
	})
	// The first rule that grants the permission decides, and each kind of read has its own.
	c.Explore("rules", func(x *mck.X) {
		perms := []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_GET_VALUE, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY}
		pi := x.Choose(3, "full permission")
		db := &world.Store{}
		d := data[x.Choose(2, "data")]
		open := world.On(db, policy.Open)
		var rules []*pb.AccessPolicy
		for i, p := range perms {
			f := []string{"name"}
			if i == pi {
				f = []string{"*"}
			}
			rules = append(rules, &pb.AccessPolicy{ApiKey: "*", NameMatch: "*", Permissions: []pb.Permission{p}, AllowedFields: f})
		}
		limited := world.On(db, &policy.Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: rules}}})
		acc := &pb.AccountRef{Id: "0"}
		_, err := open.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: "a"}, Value: d.leaf})
		must(err)
		m := &pb.MapRef{Account: acc, Name: "a"}
		_, err = open.MapSetValue(ctx, &pb.MapSetValueRequest{Map: m, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: d.leaf}})
		must(err)
		for i := range perms {
			var got *pb.LeafData
			where := fmt.Sprintf("read path %d with all fields granted on %d only", i, pi)
			switch i {
			case 0, 2:
				r, err := limited.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: acc, Name: "a", LogType: pb.LogType(i / 2)}})
				x.Assert(err == nil && len(r.Values) == 1, "%s: %v", where, err)
				got = r.Values[0]
				if i == 2 {
					var mm pb.MapMutation
					must(json.Unmarshal(got.ExtraData, &mm))
					got = mm.Value
				}
			case 1:
				r, err := limited.MapGetValue(ctx, &pb.MapGetValueRequest{Map: m, Key: []byte("k")})
				x.Assert(err == nil, "%s: %v", where, err)
				got = r.Value
			}
			if i == pi {
				x.Assert(world.SameLeaf(got, d.leaf), "%s: %s", where, world.Str(got))
			} else {
				d.checkFiltered(x, where, got, map[string]bool{"name": true})
			}
		}
		x.C.State("rules", pi, d.name)
		x.C.Trace(1)
	})
	// Of several lines that grant it, the first decides which fields show.
	type line struct {
		grants func(key string) bool
		fields string
		pol    *pb.AccessPolicy
	}
	var lines []line
	for _, pat := range []string{"a", "*", "[", "b"} {
		for _, key := range []string{"*", "k"} {
			for _, perm := range []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS, pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH} {
				for _, fields := range []string{"*", "name", "dob"} {
					pat, key, perm := pat, key, perm
					lines = append(lines, line{func(k string) bool {
						return (pat == "a" || pat == "*") && (key == "*" || k == key) && perm != pb.Permission_PERM_LOG_READ_HASH
					}, fields, &pb.AccessPolicy{ApiKey: key, NameMatch: pat, Permissions: []pb.Permission{perm}, AllowedFields: []string{fields}}})
				}
			}
		}
	}
	linesDB := &world.Store{}
	_, err := world.On(linesDB, policy.Open).LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "a"}, Value: data[0].leaf})
	must(err)
	c.Explore("several lines", func(x *mck.X) {
		var ls []line
		ls = append(ls, lines[x.Choose(len(lines), "first")], lines[x.Choose(len(lines), "second")])
		if !x.C.Quick() && x.Bool("third line") {
			ls = append(ls, lines[x.Choose(len(lines), "third")])
		}
		accounts := []*pb.ResourceAccount{{Id: "0"}}
		cut := x.Bool("two lists for the account")
		for i, l := range ls {
			if i == 1 && cut {
				accounts = append(accounts, &pb.ResourceAccount{Id: "0"})
			}
			a := accounts[len(accounts)-1]
			a.Policy = append(a.Policy, l.pol)
		}
		s := world.On(linesDB, &policy.Static{Policy: accounts})
		for _, key := range []string{"k", "other"} {
			where := fmt.Sprintf("key %q under %v", key, accounts)
			fields := ""
			for _, l := range ls {
				if l.grants(key) {
					fields = l.fields
					break
				}
			}
			r, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0", ApiKey: key}, Name: "a"}})
			x.C.Transition(1)
			x.C.Eval(fields != "", "lines", where)
			if fields == "" {
				x.Assert(world.Code(err) == codes.PermissionDenied, "%s: %v, %v", where, r, err)
				continue
			}
			x.Assert(err == nil && len(r.Values) == 1, "%s: refused: %v", where, err)
			if fields == "*" {
				x.Assert(world.SameLeaf(r.Values[0], data[0].leaf), "%s: all fields are allowed but got %s", where, world.Str(r.Values[0]))
			} else {
				data[0].checkFiltered(x, where, r.Values[0], map[string]bool{fields: true})
			}
		}
		x.C.State(fmt.Sprint("lines ", accounts))
		x.C.Trace(1)
	})
	// Every entry of an answer is filtered, however many there are.
	const most = 1100
	long := make([]s05Datum, most)
	for i := range long {
		n := fmt.Sprintf("SECRETname%d.", i)
		long[i] = s05JSON(fmt.Sprintf("object %d", i), fmt.Sprintf(`{"name":%q,"dob":"seen %d"}`, n, i), i%3 != 2, map[string][]string{"name": {n}})
	}
	longDB := &world.Store{}
	longOpen := world.On(longDB, policy.Open)
	for i := range long {
		_, err := longOpen.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "a"}, Value: long[i].leaf})
		must(err)
		if i < most/4 {
			_, err = longOpen.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "a"}, Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i%7)), Value: long[i].leaf}})
			must(err)
		}
	}
	limited := world.On(longDB, &policy.Static{Policy: []*pb.ResourceAccount{{Id: "0", Policy: []*pb.AccessPolicy{{ApiKey: "*", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}, AllowedFields: []string{"dob"}}}}}})
	c.Explore("many entries", func(x *mck.X) {
		lt := ltLog
		total := most
		if x.Bool("mutation log") {
			lt, total = ltMut, most/4
		}
		pages := []int{1, 7, 64, 100, 257, 1000, 1024, 0}
		page := pages[x.Choose(len(pages), "page size")]
		if page == 0 {
			page = total
		}
		for first := 0; first < total; {
			last := first + page
			if last > total {
				last = total
			}
			r, err := limited.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "a", LogType: lt}, First: int64(first), Last: int64(last)})
			x.Assert(err == nil, "entries %d to %d of %v: %v", first, last, lt, err)
			x.Assert(len(r.Values) > 0 && len(r.Values) <= last-first, "entries %d to %d of %v: %d of them", first, last, lt, len(r.Values))
			x.C.Transition(1)
			for i, got := range r.Values {
				d := long[first+i]
				if lt == ltMut {
					var mm pb.MapMutation
					must(json.Unmarshal(got.ExtraData, &mm))
					got = mm.Value
				}
				d.checkFiltered(x, fmt.Sprintf("entry %d of %v, among %d from %d", first+i, lt, len(r.Values), first), got, map[string]bool{"dob": true})
			}
			first += len(r.Values)
		}
		x.C.State("many", lt, page)
		x.C.Trace(1)
		x.C.Eval(true, "many", lt, page)
	})
}
