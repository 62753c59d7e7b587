package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/postgres"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"github.com/jackc/pgx/v5/pgxpool"
	"google.golang.org/protobuf/proto"

	"verifmc/fakepg"
	"verifmc/mck"
	"verifmc/ref"
	"verifmc/rig"
	"verifmc/vfs"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "D01", Run: runD01, Budget: 100 * time.Second,
		Rule:        "on each of the four backends: from every state of two keys (absent, empty, two values), every transaction with up to 2 (thorough: 3) operations (set to empty, to either value, delete), committed or failed, in either of two namespaces; every sequence of 3 (badger: 2, thorough: 3) transactions with up to 1 operation; every ordered pair from lists of awkward namespaces, keys and values of up to 100 kB; transactions of 300 to 130000 operations that commit or fail; up to 5000 namespaces at once (badger: 16, bolt: 400, postgres: 2000), written and read in turns; values that cannot be written or read; PostgreSQL failing or disconnecting at each statement of updates and reads; on Bolt and Badger, with a new or an existing database, a file that cannot be opened or created, at each opening, once or twice in a row, in a read or an update",
		Assumptions: []string{"PostgreSQL is a model of its documented behaviour behind the real wire protocol", "keys and namespaces are not empty"}})
}

var twoKeys = []string{"k", "kk"}
var nss = []string{"namespace 0", "namespace 1"}

type op struct {
	key, val string
	del      bool
}

func (o op) String() string {
	if o.del {
		return "delete " + o.key
	}
	return fmt.Sprintf("set %s=%q", o.key, o.val)
}

var ops = func() (l []op) {
	for _, k := range twoKeys {
		for _, v := range []string{"", "1", "22"} {
			l = append(l, op{k, v, false})
		}
		l = append(l, op{k, "", true})
	}
	return
}()

var errMine = errors.New("the transaction's own error")

// tx is one transaction and what it does.
type tx struct {
	ns   int
	ops  []op
	fail bool
}

func chooseTx(x *mck.X, max int, mayFail bool) tx {
	var t tx
	t.ns = x.Choose(2, "namespace")
	n := x.Range(0, max, "operations")
	for i := 0; i < n; i++ {
		t.ops = append(t.ops, ops[x.Choose(len(ops), "operation")])
	}
	if mayFail {
		t.fail = x.Bool("fail")
	}
	return t
}

func (t tx) String() string {
	var l []string
	for _, o := range t.ops {
		l = append(l, o.String())
	}
	s := fmt.Sprintf("in %s: %s", nss[t.ns], strings.Join(l, ", "))
	if t.fail {
		s += ", then fail"
	}
	return s
}

func (t tx) apply(m kv) kv {
	m = m.clone()
	for _, o := range t.ops {
		if o.del {
			delete(m, o.key)
		} else {
			m[o.key] = o.val
		}
	}
	return m
}

func set(w verifiable.KeyWriter, o op) error {
	k := []byte(o.key)
	var err error
	if o.del {
		err = w.Set(ctx, k, nil)
	} else {
		v := value(o.val)
		err = w.Set(ctx, k, v)
		for i := range v.LeafInput {
			v.LeafInput[i] = '#'
		}
	}
	return err
}

// run runs the transaction and checks what it reads.
func (t tx) run(x *mck.X, db world.Storage, state []kv) {
	x.Logf("%v", t)
	m := state[t.ns]
	done := 0
	err := db.ExecuteUpdate(ctx, []byte(nss[t.ns]), func(_ context.Context, w verifiable.KeyWriter) error {
		done++
		if err := compare(w, twoKeys, m); err != nil {
			return fmt.Errorf("at the start: %v", err)
		}
		for i, o := range t.ops {
			if err := set(w, o); err != nil {
				return fmt.Errorf("%v: %v", o, err)
			}
			if err := compare(w, twoKeys, tx{ops: t.ops[:i+1]}.apply(m)); err != nil {
				return fmt.Errorf("after its own %v: %v", o, err)
			}
		}
		if t.fail {
			return errMine
		}
		return nil
	})
	x.Assert(done == 1, "the function was called %d times", done)
	if t.fail {
		x.Assert(errors.Is(err, errMine), "%v returned %v instead of the function's error", t, err)
	} else {
		x.Assert(err == nil, "%v: %v", t, err)
		state[t.ns] = t.apply(m)
	}
	for i := range nss {
		err := readBack(db, nss[i], twoKeys, state[i])
		x.Assert(err == nil, "after %v, in %s: %v", t, nss[i], err)
	}
	x.C.Transition(1)
	x.C.State(fmt.Sprint(state))
	err = db.ExecuteReadOnly(ctx, []byte(nss[t.ns]), func(context.Context, verifiable.KeyReader) error { return errMine })
	x.Assert(errors.Is(err, errMine), "reading returned %v instead of the function's error", err)
}

func backends() []rig.Backend {
	return []rig.Backend{rig.MemoryBackend, rig.BoltBackend, rig.BadgerBackend, rig.PostgresBackend(false)}
}

func runD01(c *mck.C) {
	for _, b := range backends() {
		b := b
		c.Explore(b.Name+", one transaction from every state", func(x *mck.X) {
			open, done := b.Open(x)
			defer done()
			db := open()
			state := []kv{{}, {"k": "other"}}
			for _, k := range twoKeys {
				if n := x.Choose(4, "initial "+k); n > 0 {
					state[0][k] = []string{"", "1", "22"}[n-1]
				}
			}
			for i, m := range state {
				err := db.ExecuteUpdate(ctx, []byte(nss[i]), func(_ context.Context, w verifiable.KeyWriter) error {
					for k, v := range m {
						if err := set(w, op{key: k, val: v}); err != nil {
							return err
						}
					}
					return nil
				})
				x.Assert(err == nil, "%v", err)
			}
			chooseTx(x, c.Pick(2, 3), !b.Transient).run(x, db, state)
			c.Trace(1)
		})
		c.Explore(b.Name+", sequences", func(x *mck.X) {
			open, done := b.Open(x)
			defer done()
			db := open()
			state := []kv{{}, {}}
			n := 3
			if b.Name == "badger" && c.Quick() {
				n = 2
			}
			var ts []tx
			for i := 0; i < n; i++ {
				ts = append(ts, chooseTx(x, 1, !b.Transient))
			}
			for _, t := range ts {
				t.run(x, db, state)
			}
			c.Trace(1)
			if len(ts[0].ops)+len(ts[1].ops) > 1 {
				c.Sample(b.Name, "%s", x.TraceString())
			}
		})
		awkward(c, b)
		large(c, b)
		crowd(c, b)
	}
	pgFaults(c)
	openFaults(c)
}

var awkwardNames = []string{"a", "ab", "a\x00", "A", "\xff", "../x", "/", "a/b", "%00", "'; DROP TABLE x; --", "\x00", ".", "..", "root", strings.Repeat("n", 100)}
var awkwardKeys = []string{"a", "ab", "a\x00", "A", "\xff\xff", "\x00", "'", "!badger!x", "root", strings.Repeat("k", 300), strings.Repeat("k", 301)}
var sizes = []int{0, 1, 31, 32, 33, 100, 1000, 4000, 4096, 5000, 20000, 65536, 100000}

func awkward(c *mck.C, b rig.Backend) {
	c.Explore(b.Name+", awkward namespaces", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		m, n := x.Choose(len(awkwardNames), "first"), x.Choose(len(awkwardNames), "second")
		state := map[int]kv{m: {}, n: {}}
		for i, a := range []int{m, n} {
			state[a]["k"] = fmt.Sprint("v", i)
			err := db.ExecuteUpdate(ctx, []byte(awkwardNames[a]), func(_ context.Context, w verifiable.KeyWriter) error {
				return set(w, op{key: "k", val: fmt.Sprint("v", i)})
			})
			x.Assert(err == nil, "namespace %.40q: %v", awkwardNames[a], err)
			for j, kv := range state {
				err := readBack(db, awkwardNames[j], []string{"k"}, kv)
				x.Assert(err == nil, "namespaces %.40q and %.40q: %v", awkwardNames[m], awkwardNames[n], err)
			}
		}
		c.Trace(1)
	})
	c.Explore(b.Name+", namespaces that are alike", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		// 32 bytes, as the service's are, which differ in one; or two whose SHA-256 begin alike
		var l [2][]byte
		at := []int{-1, 0, 7, 8, 15, 16, 23, 24, 28, 30, 31}[x.Choose(11, "where they differ")]
		if at < 0 {
			l = ref.Pairs[46]
		} else {
			s := sha256.Sum256([]byte("base"))
			l[0] = append(l[0], s[:]...)
			s[at] ^= []byte{1, 0x80, 0x20}[x.Choose(3, "how")]
			l[1] = append(l[1], s[:]...)
		}
		again := x.Bool("after reopening")
		state := [2]kv{{}, {}}
		for round := 0; round < 2; round++ {
			for i, ns := range l {
				v := fmt.Sprint("v", i, round)
				state[i]["k"] = v
				err := db.ExecuteUpdate(ctx, ns, func(_ context.Context, w verifiable.KeyWriter) error {
					return set(w, op{key: "k", val: v})
				})
				x.Assert(err == nil, "namespace %x: %v", ns, err)
				for j := range l {
					err := readBack(db, string(l[j]), []string{"k"}, state[j])
					x.Assert(err == nil, "namespace %x, with %x too: %v", l[j], l[1-j], err)
				}
			}
			if again && !b.Transient {
				db = open()
			}
		}
		c.Trace(1)
	})
	c.Explore(b.Name+", awkward keys", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		k1, k2 := awkwardKeys[x.Choose(len(awkwardKeys), "first")], awkwardKeys[x.Choose(len(awkwardKeys), "second")]
		if k1 == k2 || strings.HasPrefix(k1, "!badger!") && b.Name == "badger" || strings.HasPrefix(k2, "!badger!") && b.Name == "badger" {
			x.Prune() // badger's own
		}
		state := kv{}
		for _, o := range []op{{key: k1, val: "one"}, {key: k2, val: "two"}, {key: k1, del: true}} {
			err := db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error { return set(w, o) })
			x.Assert(err == nil, "key %.40q: %v", o.key, err)
			state = tx{ops: []op{o}}.apply(state)
			err = readBack(db, "n", awkwardKeys, state)
			x.Assert(err == nil, "keys %.40q and %.40q: %v", k1, k2, err)
		}
		c.Trace(1)
	})
	c.Explore(b.Name+", sizes", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		m, n := sizes[x.Choose(len(sizes), "first")], sizes[x.Choose(len(sizes), "second")]
		state := kv{}
		for _, o := range []op{{key: "a", val: strings.Repeat("a", m)}, {key: "b", val: strings.Repeat("b", n)}, {key: "a", val: strings.Repeat("c", n)}, {key: "b", del: true}} {
			err := db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error { return set(w, o) })
			x.Assert(err == nil, "%d and %d bytes: %v", m, n, err)
			state = tx{ops: []op{o}}.apply(state)
			err = readBack(db, "n", []string{"a", "b"}, state)
			x.Assert(err == nil, "%d and %d bytes: %v", m, n, err)
		}
		c.Trace(1)
	})
	c.Explore(b.Name+", unwritable and unreadable values", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		err := db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error {
			if err := w.Set(ctx, []byte("k"), &pb.MapMutation{Value: value("old"), Key: []byte{0xff}}); err != nil {
				return err
			}
			return w.Set(ctx, []byte("bad"), &pb.LogRef{Account: &pb.AccountRef{Id: "x"}, Name: "y"})
		})
		x.Assert(err == nil, "%v", err)
		if x.Bool("write") {
			// not UTF-8, which cannot be marshalled
			err = db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error {
				return w.Set(ctx, []byte("k"), &pb.LogRef{Name: "\xff"})
			})
			x.Assert(err != nil, "writing what cannot be marshalled succeeded")
			err = db.ExecuteReadOnly(ctx, []byte("n"), func(_ context.Context, r verifiable.KeyReader) error {
				var m pb.MapMutation
				if err := r.Get(ctx, []byte("k"), &m); err != nil {
					return err
				}
				if !proto.Equal(m.Value, value("old")) || !bytes.Equal(m.Key, []byte{0xff}) {
					return fmt.Errorf("got %v", &m)
				}
				return nil
			})
			x.Assert(err == nil, "after a write that failed: %v", err)
			return
		}
		// the field that is a message in one is bytes or text in the other
		var got error
		read := func(_ context.Context, r verifiable.KeyReader) error {
			got = r.Get(ctx, []byte("bad"), &pb.LogRef{})
			if got != nil {
				return fmt.Errorf("sound value: %v", got)
			}
			got = r.Get(ctx, []byte("k"), &pb.LogRef{})
			if got == nil {
				var l pb.LogRef
				got = r.Get(ctx, []byte("k"), &l)
			}
			return nil
		}
		_ = db.ExecuteReadOnly(ctx, []byte("n"), read)
		x.Assert(got != nil && got != verifiable.ErrNoSuchKey, "reading what cannot be unmarshalled gave %v", got)
		c.Trace(1)
	})
	c.Explore(b.Name+", cancelled context", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		err := db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error { return set(w, op{key: "k", val: "v"}) })
		x.Assert(err == nil, "%v", err)
		cx, cancel := context.WithCancel(ctx)
		cancel()
		var got error
		err = db.ExecuteReadOnly(cx, []byte("n"), func(cx context.Context, r verifiable.KeyReader) error {
			var l pb.LeafData
			got = r.Get(cx, []byte("k"), &l)
			if got == nil && string(l.LeafInput) != "v" {
				got = verifiable.ErrNoSuchKey
			}
			return got
		})
		x.Assert(got != verifiable.ErrNoSuchKey && err != verifiable.ErrNoSuchKey, "a present key is reported missing")
		c.Trace(1)
	})
}

// large has transactions of many operations, which happen entirely or not at
// all, whatever the backend can hold.
func large(c *mck.C, b rig.Backend) {
	c.Explore(b.Name+", large transactions", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		counts := []int{300, 3000, 30000, 130000}
		if b.Name == "postgres" {
			counts = []int{300, 3000}
		}
		n := counts[x.Choose(len(counts), "operations")]
		long := x.Bool("long values")
		fail := !b.Transient && x.Bool("fail at the end")
		val := func(i int) string {
			if long && i%100 == 0 {
				return fmt.Sprint("v", i, strings.Repeat("-", 5000))
			}
			return fmt.Sprint("v", i)
		}
		key := func(i int) string { return fmt.Sprintf("key %09d", i) }
		var samples []string
		for _, i := range []int{0, 1, 2, 99, 100, 255, 256, n / 3, n / 2, n - 2, n - 1} {
			samples = append(samples, key(i))
		}
		for i := 511; i < n; i = i*2 + 1 {
			samples = append(samples, key(i), key(i+1))
		}
		before, after := kv{}, kv{}
		for i := 0; i < n; i++ {
			after[key(i)] = val(i)
		}
		before[samples[0]], before["other"] = "old", "old"
		after["other"] = "old"
		samples = append(samples, "other")
		err := db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error {
			for _, k := range []string{samples[0], "other"} {
				if err := set(w, op{key: k, val: "old"}); err != nil {
					return err
				}
			}
			return nil
		})
		x.Assert(err == nil, "%v", err)
		err = db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error {
			for i := 0; i < n; i++ {
				if err := set(w, op{key: key(i), val: val(i)}); err != nil {
					return err
				}
			}
			if err := compare(w, samples, after); err != nil {
				return fmt.Errorf("its own writes: %v", err)
			}
			if fail {
				return errMine
			}
			return nil
		})
		want := after
		switch {
		case fail && errors.Is(err, errMine):
			want = before
		case fail:
			x.Assert(err != nil && n > 10000, "a transaction of %d operations that failed returned %v", n, err)
			want = before
		case err != nil:
			// more than the engine can hold in one
			x.Assert(n > 10000 && !strings.Contains(err.Error(), "its own writes"), "a transaction of %d operations: %v", n, err)
			want = before
		}
		for round := 0; round < 2; round++ {
			err = readBack(db, "n", samples, want)
			x.Assert(err == nil, "after a transaction of %d operations (%v): %v", n, fail, err)
			if round == 0 && !b.Transient {
				db = open()
			}
			err = db.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error {
				want["other"] = fmt.Sprint("round ", round)
				return set(w, op{key: "other", val: want["other"]})
			})
			x.Assert(err == nil, "after a transaction of %d operations: %v", n, err)
		}
		c.Transition(n)
		c.State("large", b.Name, n, long, fail)
		c.Trace(1)
	})
}

// crowd has many namespaces, each of which has values of its own.
func crowd(c *mck.C, b rig.Backend) {
	n := map[string]int{"memory": 5000, "postgres": 2000, "bolt": 400, "badger": 16}[b.Name]
	c.Explore(b.Name+", crowds of namespaces", func(x *mck.X) {
		open, done := b.Open(x)
		defer done()
		db := open()
		hashed := x.Bool("names are hashes")
		name := func(i int) string {
			if hashed {
				h := sha256.Sum256([]byte(fmt.Sprint(i)))
				return string(h[:])
			}
			return fmt.Sprint("account/", i)
		}
		state := make([]kv, n)
		keys := []string{"k", "size"}
		for round := 0; round < 2; round++ {
			for i := 0; i < n; i++ {
				if state[i] == nil {
					state[i] = kv{}
				}
				err := readBack(db, name(i), keys, state[i])
				x.Assert(err == nil, "namespace %d of %d before it was written in round %d: %v", i, n, round, err)
				o := op{key: keys[(i+round)%2], val: fmt.Sprint(i, round)}
				err = db.ExecuteUpdate(ctx, []byte(name(i)), func(_ context.Context, w verifiable.KeyWriter) error { return set(w, o) })
				x.Assert(err == nil, "namespace %d of %d: %v", i, n, err)
				state[i][o.key] = o.val
			}
			for i := 0; i < n; i++ {
				err := readBack(db, name(i), keys, state[i])
				x.Assert(err == nil, "namespace %d of %d: %v", i, n, err)
			}
			if !b.Transient {
				db = open()
			}
		}
		c.Transition(2 * n)
		c.State("crowd", b.Name, hashed)
		c.Trace(1)
	})
}

// pgFaults has the database fail at each statement.
func pgFaults(c *mck.C) {
	c.Explore("postgres, faults", func(x *mck.X) {
		db := fakepg.New()
		var conn *pgxpool.Conn
		connect := func() (world.Storage, func()) {
			p, c2, err := db.Pool()
			conn = c2
			if err != nil {
				panic("mck: " + err.Error())
			}
			return &postgres.Storage{Pool: conn}, func() {
				db.Crash()
				c2.Release()
				p.Close()
			}
		}
		s, done := connect()
		closers := []func(){done}
		defer func() {
			for _, f := range closers {
				f()
			}
		}()
		before := kv{}
		update := func(t tx) (err error) {
			return s.ExecuteUpdate(ctx, []byte("n"), func(_ context.Context, w verifiable.KeyWriter) error {
				for _, o := range t.ops {
					if err := set(w, o); err != nil {
						return err
					}
				}
				return nil
			})
		}
		if x.Bool("table exists") {
			before = kv{"k": "0"}
			err := update(tx{ops: []op{{key: "k", val: "0"}}})
			x.Assert(err == nil, "%v", err)
		}
		var faults, n int
		at := x.Choose(14, "statement")
		kind := fakepg.Fault(1 + x.Choose(3, "fault"))
		x.Logf("%d at statement %d", kind, at)
		db.OnStatement = func(sql string) fakepg.Fault {
			n++
			if n == at+1 {
				faults++
				x.Logf("fault at %s", sql)
				return kind
			}
			return fakepg.None
		}
		t := tx{ops: []op{{key: "k", val: "1"}, {key: "kk", val: "2"}, {key: "k", del: true}, {key: "k", val: "3"}}}
		after := t.apply(before)
		read := x.Bool("read")
		var err error
		if read {
			var seen error
			err = s.ExecuteReadOnly(ctx, []byte("n"), func(_ context.Context, r verifiable.KeyReader) error {
				for _, k := range twoKeys {
					v, ok, err := get(r, k)
					if err != nil {
						return err
					}
					if want, has := before[k]; v != want || ok != has {
						seen = fmt.Errorf("key %s: present %v, %q", k, ok, v)
					}
				}
				return nil
			})
			x.Assert(seen == nil, "with a fault, reading gave %v", seen)
			after = before
		} else {
			err = update(t)
		}
		db.OnStatement = nil
		if faults == 0 {
			x.Assert(err == nil, "without a fault: %v", err)
		}
		x.Logf("result: %v", err)
		c.Eval(faults > 0, x.TraceString())
		c.State(x.TraceString())
		if conn.Conn().IsClosed() {
			s, done = connect()
			closers = append(closers, done)
		}
		eb, ea := readBack(s, "n", twoKeys, before), readBack(s, "n", twoKeys, after)
		if err == nil {
			x.Assert(ea == nil, "acknowledged, but: %v", ea)
			before = after
		} else if kind == fakepg.DropAfter {
			x.Assert(ea == nil || eb == nil, "neither the state before nor after: %v, %v", eb, ea)
			if eb != nil {
				before = after
			}
		} else {
			x.Assert(eb == nil, "failed with %v, but: %v", err, eb)
		}
		t = tx{ops: []op{{key: "k", val: "later"}}}
		err = update(t)
		x.Assert(err == nil, "later: %v", err)
		err = readBack(s, "n", twoKeys, t.apply(before))
		x.Assert(err == nil, "later: %v", err)
		c.Trace(1)
		c.Sample("faults", "%s", x.TraceString())
	})
}

// openFaults has the files of a namespace fail to open.
func openFaults(c *mck.C) {
	for _, b := range fileStores {
		b := b
		c.Explore(b.name+", files that cannot be opened", func(x *mck.X) {
			dir := rig.ScratchDir()
			x.Defer(func() { os.RemoveAll(dir) })
			disk := vfs.Track(dir, nil)
			defer disk.Untrack()
			state := []kv{{}, {}}
			db, closer := b.open(dir)
			defer func() { closer() }()
			write := func(ns int, o op) error {
				err := db.ExecuteUpdate(ctx, []byte(nss[ns]), func(_ context.Context, w verifiable.KeyWriter) error { return set(w, o) })
				if err == nil {
					state[ns] = tx{ns: ns, ops: []op{o}}.apply(state[ns])
				}
				return err
			}
			must := func(err error) { x.Assert(err == nil, "without a fault: %v", err) }
			if x.Bool("existing database") {
				must(write(0, op{key: "k", val: "1"}))
				must(write(1, op{key: "k", val: "22"}))
				closer()
				db, closer = b.open(dir)
			} else if x.Bool("other namespace open") {
				must(write(1, op{key: "k", val: "22"}))
			}
			at, times := x.Choose(12, "opening"), 1+x.Choose(2, "failures")
			n, faults := 0, 0
			disk.OnOpen = func(path string) error {
				n++
				if n > at && n <= at+times {
					faults++
					x.Logf("fault at %s", path)
					return syscall.EMFILE
				}
				return nil
			}
			for i := 0; i < 2; i++ {
				was := faults
				if x.Bool("read") {
					err := readBack(db, nss[0], twoKeys, state[0])
					x.Logf("read: %v", err)
					x.Assert(err == nil || faults > was, "without a fault: %v", err)
					x.Assert(err == nil || strings.Contains(err.Error(), syscall.EMFILE.Error()), "reading with a fault: %v", err)
				} else {
					err := write(0, op{key: twoKeys[i], val: "new"})
					x.Logf("update: %v", err)
					x.Assert(err == nil || faults > was, "without a fault: %v", err)
				}
				c.Transition(1)
			}
			disk.OnOpen = nil
			c.Eval(faults > 0, b.name, x.TraceString())
			for again := 0; again < 2; again++ {
				for ns := range nss {
					err := readBack(db, nss[ns], twoKeys, state[ns])
					x.Assert(err == nil, "afterwards: %v", err)
				}
				must(write(0, op{key: "kk", val: "later"}))
				closer()
				db, closer = b.open(dir)
			}
			c.State(b.name, x.TraceString())
			c.Trace(1)
			c.Sample(b.name+", opening", "%s", x.TraceString())
		})
	}
}
