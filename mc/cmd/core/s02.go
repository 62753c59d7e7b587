package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// object identifies a log or map.
type object struct {
	acct, name string
	isMap      bool
}

func (o object) String() string {
	return fmt.Sprintf("%s %q of account %q", map[bool]string{false: "log", true: "map"}[o.isMap], o.name, o.acct)
}

func objects(accts, names []string) (rv []object) {
	for _, a := range accts {
		for _, n := range names {
			rv = append(rv, object{a, n, false}, object{a, n, true})
		}
	}
	return rv
}

const s02Entries = 3

// populate performs operations on o; tag makes the contents its own.
func (o object) populate(x *mck.X, s world.Service, tag, apiKey string) {
	acc := &pb.AccountRef{Id: o.acct, ApiKey: apiKey}
	for i := 0; i < s02Entries; i++ {
		in := []byte(fmt.Sprint("e", i, tag))
		if !o.isMap {
			r, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: o.name}, Value: &pb.LeafData{LeafInput: in, ExtraData: []byte("x" + tag)}})
			x.Assert(err == nil && bytes.Equal(r.LeafHash, ref.Leaf(in)), "add to %v: %v %v", o, r, err)
			continue
		}
		mut := &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i%2)), Value: &pb.LeafData{LeafInput: in, ExtraData: []byte("x" + tag)}}
		_, err := s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: o.name}, Mutation: mut})
		x.Assert(err == nil, "set in %v: %v", o, err)
	}
	x.C.Transition(s02Entries)
}

// verify checks that o holds exactly what populate put there (n times), or nothing.
func (o object) verify(x *mck.X, s world.Service, tag string, populated bool, when string) {
	acc := &pb.AccountRef{Id: o.acct, ApiKey: "another key"}
	n := 0
	if populated {
		n = s02Entries
	}
	if !o.isMap {
		o.verifyLog(x, s, acc, ltLog, n, tag, when)
		return
	}
	o.verifyLog(x, s, acc, ltMut, n, tag, when)
	o.verifyLog(x, s, acc, ltHead, n, "", when)
	m := &pb.MapRef{Account: acc, Name: o.name}
	st := ref.NewMap()
	for i := 0; i < n; i++ {
		st.Set([]byte(fmt.Sprint("k", i%2)), []byte(fmt.Sprint("e", i, tag)))
	}
	h, err := s.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: m})
	x.Assert(err == nil, "%s: head of %v: %v", when, o, err)
	x.Assert(h.GetMutationLog().GetTreeSize() == int64(n) && bytes.Equal(h.RootHash, st.Root()), "%s: %v has %d mutations and root %x, want %d and %x", when, o, h.GetMutationLog().GetTreeSize(), h.RootHash, n, st.Root())
	for k := 0; k < 3; k++ {
		key := []byte(fmt.Sprint("k", k))
		v, err := s.MapGetValue(ctx, &pb.MapGetValueRequest{Map: m, Key: key})
		x.Assert(err == nil, "%s: %q of %v: %v", when, key, o, err)
		x.Assert(bytes.Equal(ref.Leaf(v.GetValue().GetLeafInput()), st.LeafHash(key)), "%s: %q of %v is %s", when, key, o, world.Str(v.Value))
		if len(v.GetValue().GetLeafInput()) > 0 {
			x.Assert(string(v.Value.ExtraData) == "x"+tag, "%s: %q of %v has extra data %q", when, key, o, v.Value.ExtraData)
		}
	}
}

func (o object) verifyLog(x *mck.X, s world.Service, acc *pb.AccountRef, lt pb.LogType, n int, tag, when string) {
	l := &pb.LogRef{Account: acc, Name: o.name, LogType: lt}
	h, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l})
	x.Assert(err == nil && h.TreeSize == int64(n), "%s: %v (log type %d) has head %v %v, want %d entries", when, o, lt, h, err, n)
	if n == 0 {
		r, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l, First: 0, Last: 1})
		x.Assert(err != nil, "%s: %v (log type %d), which is empty, has %v", when, o, lt, r)
		for i := 0; i < s02Entries; i++ {
			for _, t := range []string{"", tag} {
				p, err := s.LogInclusionProof(ctx, &pb.LogInclusionProofRequest{Log: l, MtlHash: ref.Leaf([]byte(fmt.Sprint("e", i, t)))})
				x.Assert(err != nil, "%s: %v (log type %d), which is empty, proves inclusion: %v", when, o, lt, p)
			}
		}
		return
	}
	r, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l})
	x.Assert(err == nil && len(r.Values) == n, "%s: %v (log type %d): entries %v %v", when, o, lt, r, err)
	t := &ref.Tree{}
	for i, e := range r.Values {
		t.Add(e.LeafInput)
		if lt == ltLog {
			x.Assert(string(e.LeafInput) == fmt.Sprint("e", i, tag) && string(e.ExtraData) == "x"+tag, "%s: %v entry %d is %s", when, o, i, world.Str(e))
		}
	}
	x.Assert(bytes.Equal(h.RootHash, t.Root(n)), "%s: %v (log type %d): root %x, its entries have %x", when, o, lt, h.RootHash, t.Root(n))
}

var (
	s02Accounts = []string{"", "0", "00", "1", "a", "log", "0/a"}
	s02Names    = []string{"", "a", "0", "a/0", "0/a", "map", "A"}
)

func init() {
	mck.Register(mck.Check{
		ID:     "S02",
		Rule:   "operations on one log or map show only there; every other object, however named, keeps exactly its contents; the internal logs of a map accept no direct additions",
		Budget: 120 * time.Second,
		Run:    runS02,
	})
}

func backend(x *mck.X, kind int) world.Storage {
	switch kind {
	case 0:
		return &memory.TransientStorage{}
	case 1:
		return &world.Store{}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_FAST"), "bolt")
	must(err)
	db := &bolt.Storage{Path: filepath.Join(dir, "db")}
	must(os.Mkdir(db.Path, 0o755))
	x.Defer(func() {
		db.Close()
		os.RemoveAll(dir)
	})
	return db
}

func runS02(c *mck.C) {
	objs := objects(s02Accounts, s02Names)
	// Every ordered pair: one with contents, then the other with the same ones.
	c.Explore("pairs", func(x *mck.X) {
		a := objs[x.Choose(len(objs), "first")]
		bi := x.Choose(len(objs), "second")
		b := objs[bi]
		if a == b {
			x.Prune()
		}
		kind := x.Choose(2, "storage")
		tag := []string{"", " of b"}[x.Choose(2, "same contents")]
		s := world.On(backend(x, kind), policy.Open)
		a.populate(x, s, "", "key a")
		b.verify(x, s, tag, false, fmt.Sprintf("after filling %v", a))
		b.populate(x, s, tag, "key b")
		a.verify(x, s, "", true, fmt.Sprintf("after filling %v too", b))
		b.verify(x, s, tag, true, fmt.Sprintf("after filling %v before", a))
		x.C.State(a, b, tag)
		x.C.Trace(1)
		x.C.Eval(true, a, b, tag, kind)
		x.C.Sample("pair", "%v and %v", a, b)
	})
	// All of them in one storage, some filled.
	c.Explore("all", func(x *mck.X) {
		kind := x.Choose(3, "storage")
		fill := x.Choose(4, "which")
		s := world.On(backend(x, kind), policy.Open)
		filled := func(i int) bool {
			switch fill {
			case 0:
				return true
			case 1:
				return !objs[i].isMap
			case 2:
				return objs[i].isMap
			}
			return i%3 == 0
		}
		for i, o := range objs {
			if filled(i) {
				o.populate(x, s, o.String(), "")
			}
		}
		for i, o := range objs {
			o.verify(x, s, o.String(), filled(i), "with others filled")
		}
		x.C.State("all", kind, fill)
		x.C.Trace(1)
	})
	// Logs and maps that grow side by side, with all their proofs.
	c.Explore("grown", func(x *mck.X) {
		n := []int{7, 12, 15, 23, 31}[x.Choose(c.Pick(4, 5), "size")]
		order := x.Choose(4, "order")
		shared := x.Bool("same entries, other order")
		s := world.On(backend(x, x.Choose(2, "storage")), policy.Open)
		var logs []*logWorld
		var maps []*mapRun
		keys := [][]byte{ref.Base, ref.Ladder[1], ref.Ladder[9], []byte("k"), []byte("l"), []byte("absent")}
		for _, a := range []string{"0", "1"} {
			acct := (&verifiable.Client{Service: s}).Account(a, "")
			for _, name := range []string{"a", "b"} {
				logs = append(logs, &logWorld{kind: fmt.Sprintf("log %q of account %q", name, a), log: acct.VerifiableLog(name), tree: &ref.Tree{}})
				r := newMapRun(s, name)
				r.m = acct.VerifiableMap(name)
				maps = append(maps, r)
			}
		}
		step := func(which, i int) {
			if which < 4 {
				w := logs[which]
				in := fmt.Sprintf("%d of %d", i, which)
				if shared {
					in = fmt.Sprint((i*[]int{1, 2, 4, 7}[which] + which) % 37) // coprime to 37, so no duplicates
				}
				w.add(x, world.Leaf(in, fmt.Sprint(which)))
				return
			}
			r := maps[which-4]
			k := keys[(i+which)%5]
			in := fmt.Sprintf("%d of %d", i, which)
			if shared {
				in = fmt.Sprint((i + which) % 5)
			}
			switch (i + which) % 6 {
			case 2:
				r.do(x, "delete", k, nil, nil)
			case 4:
				r.do(x, "update", k, world.Leaf(in, "x"), r.cur().LeafHash(k))
			case 5:
				r.do(x, "update", k, world.Leaf(in, "x"), []byte("other"))
			default:
				r.do(x, "set", k, world.Leaf(in, "x"), nil)
			}
		}
		all := func(which int) {
			if which < 4 {
				w := logs[which]
				checkRoots(x, w)
				for k := 1; k <= w.n(); k++ {
					checkInclusion(x, w, k)
					checkConsistency(x, w, k)
				}
				if w.n() > 0 {
					checkEntries(x, w, 0, w.n())
				}
				return
			}
			r := maps[which-4]
			what := ckValues | ckRoots | ckProofs | ckLogs
			if !shared {
				what |= ckExtra
			}
			r.check(x, what, keys, upTo(r.n()))
		}
		switch order {
		case 0: // in turn, one entry at a time
			for i := 0; i < n; i++ {
				for w := 0; w < 8; w++ {
					step(w, i)
				}
			}
		case 1: // one after the other, asked about in between
			for w := 0; w < 8; w++ {
				for i := 0; i < n; i++ {
					step(w, i)
				}
				all(w)
			}
		case 2: // likewise, the maps first
			for w := 7; w >= 0; w-- {
				for i := 0; i < n; i++ {
					step(w, i)
				}
				all(w)
			}
		case 3: // different sizes, asked about after each round
			for i := 0; i < n; i++ {
				for w := 0; w < 8; w++ {
					if i%(w%4+1) == 0 {
						step(w, i)
					}
				}
				if i%4 == 2 {
					for w := 0; w < 8; w++ {
						all(w)
					}
				}
			}
		}
		for w := 0; w < 8; w++ {
			all(w)
		}
		x.C.State("grown", n, order, shared)
		x.C.Trace(8)
		x.C.Eval(true, "grown", n, order, shared)
	})
	// A great many objects with one entry each.
	c.Explore("many", func(x *mck.X) {
		var objs []object
		switch x.Choose(3, "which") {
		case 0:
			for i := 0; i < c.Pick(1<<18, 1<<20); i++ {
				objs = append(objs, object{"0", fmt.Sprint(i), false})
			}
		case 1:
			for i := 0; i < c.Pick(1<<15, 1<<18); i++ {
				objs = append(objs, object{"0", fmt.Sprint(i), true})
			}
		case 2: // every account and name of up to three letters of three
			words := []string{""}
			for i := 0; i < 13; i++ {
				for _, l := range []string{"0", "/", "a"} {
					words = append(words, words[i]+l)
				}
			}
			objs = objects(words, words)
		}
		s := world.On(&world.Store{}, policy.Open)
		for i, o := range objs {
			acc := &pb.AccountRef{Id: o.acct}
			v := world.Leaf(fmt.Sprint("e", i), "x")
			var err error
			if o.isMap {
				_, err = s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: o.name}, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: v}})
			} else {
				_, err = s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: o.name}, Value: v})
			}
			x.Assert(err == nil, "adding to %v: %v", o, err)
		}
		for i, o := range objs {
			acc := &pb.AccountRef{Id: o.acct}
			if o.isMap {
				r, err := s.MapGetValue(ctx, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: acc, Name: o.name}, Key: []byte("k")})
				x.Assert(err == nil && string(r.Value.GetLeafInput()) == fmt.Sprint("e", i) && r.TreeSize == 1, "%v, set only once, has %v, %v; there are %d others", o, world.Text(r), err, len(objs)-1)
				continue
			}
			r, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: acc, Name: o.name}})
			x.Assert(err == nil && len(r.Values) == 1 && string(r.Values[0].LeafInput) == fmt.Sprint("e", i), "%v, added to only once, has %v, %v; there are %d others", o, world.Text(r), err, len(objs)-1)
		}
		x.C.Transition(2 * len(objs))
		x.C.State("many", len(objs))
		x.C.Trace(len(objs))
	})
	// Direct additions to internal logs.
	c.Explore("internal", func(x *mck.X) {
		lt := []pb.LogType{ltMut, ltHead, 3, -1}[x.Choose(4, "log type")]
		full := x.Bool("filled")
		kind := x.Choose(3, "storage")
		o := object{"0", "a", true}
		s := world.On(backend(x, kind), policy.Open)
		if full {
			o.populate(x, s, "", "")
		}
		for _, v := range []*pb.LeafData{world.Leaf("e0", "x"), {LeafInput: []byte("z"), ExtraData: []byte(`{"action":"set","key":"aw=="}`), Format: pb.DataFormat_JSON}} {
			r, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "a", LogType: lt}, Value: v})
			x.Assert(err != nil, "direct addition to log type %d of a map was acknowledged: %v", lt, r)
		}
		o.verify(x, s, "", full, fmt.Sprintf("after adding to log type %d", lt))
		object{"0", "a", false}.verify(x, s, "", false, "after adding to an internal log")
		x.C.State("internal", lt, full)
		x.C.Trace(1)
	})
}
