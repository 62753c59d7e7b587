package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/rig"
	"verifmc/vs"
	"verifmc/world"
)

var ctx = context.Background()

func init() {
	mck.Register(mck.Check{ID: "D04", Run: runD04, Budget: 100 * time.Second,
		Rule:        "every schedule with at most 2 (thorough: 3) preemptions of 2 or 3 goroutines with 1 or 2 transactions each from a menu (read, update of two keys, update of another namespace, failing update), preemptible at every lock operation and between all storage operations; race detection on every schedule",
		Assumptions: []string{"preemptions within code that does no synchronisation are covered by the absence of data races", "PostgreSQL is a model of its documented locking and visibility rules behind the real wire protocol"}})
}

// txn is what a transaction saw and did.
type txn struct {
	name       string
	ns         int
	update     bool
	fail       bool
	start, end int
	reads      map[string]string
	writes     map[string]string
	ok         bool
	err        error
}

var keys = []string{"a", "b"}

func nsName(i int) []byte { return []byte(fmt.Sprint("namespace ", i)) }

// exec runs the transaction against the storage.
func (t *txn) exec(db world.Storage) {
	t.reads = map[string]string{}
	t.writes = map[string]string{}
	read := func(r verifiable.KeyReader, k string) (string, error) {
		vs.Point("get " + k)
		var v pb.LeafData
		err := r.Get(ctx, []byte(k), &v)
		if err == verifiable.ErrNoSuchKey {
			return "", nil
		}
		return string(v.LeafInput), err
	}
	readAll := func(r verifiable.KeyReader) error {
		for _, k := range keys {
			v, err := read(r, k)
			if err != nil {
				return err
			}
			t.reads[k] = v
		}
		return nil
	}
	t.start = vs.Step()
	if t.update {
		t.err = db.ExecuteUpdate(ctx, nsName(t.ns), func(_ context.Context, w verifiable.KeyWriter) error {
			if err := readAll(w); err != nil {
				return err
			}
			for _, k := range keys {
				vs.Point("set " + k)
				if err := w.Set(ctx, []byte(k), &pb.LeafData{LeafInput: []byte(t.name + t.reads[k])}); err != nil {
					return err
				}
				t.writes[k] = t.name + t.reads[k]
			}
			for _, k := range keys {
				v, err := read(w, k)
				if err != nil {
					return err
				}
				if v != t.writes[k] {
					t.reads["own "+k] = v
				}
			}
			vs.Point("finish")
			if t.fail {
				return errors.New("failing on purpose")
			}
			return nil
		})
	} else {
		t.err = db.ExecuteReadOnly(ctx, nsName(t.ns), func(_ context.Context, r verifiable.KeyReader) error {
			if err := readAll(r); err != nil {
				return err
			}
			vs.Point("finish")
			return nil
		})
	}
	t.ok = t.err == nil
	t.end = vs.Step()
}

func (t *txn) String() string {
	return fmt.Sprintf("%s(ns %d, update %v, fail %v, [%d,%d], reads %v, writes %v, err %v)", t.name, t.ns, t.update, t.fail, t.start, t.end, t.reads, t.writes, t.err)
}

// serial says whether the transactions could have run one after another, in an
// order that respects which ended before which started.
func serial(ts []*txn, initial, final map[int]map[string]string) bool {
	used := make([]bool, len(ts))
	state := map[int]map[string]string{0: initial[0], 1: initial[1]}
	var rec func(n int) bool
	rec = func(n int) bool {
		if n == len(ts) {
			for ns, m := range final {
				for k, v := range m {
					if state[ns][k] != v {
						return false
					}
				}
			}
			return true
		}
		for i, t := range ts {
			if used[i] {
				continue
			}
			first := true
			for j, o := range ts {
				if !used[j] && j != i && o.end < t.start {
					first = false
				}
			}
			if !first {
				continue
			}
			match := true
			for _, k := range keys {
				if v, ok := t.reads[k]; ok && v != state[t.ns][k] {
					match = false
				}
			}
			if !match {
				continue
			}
			used[i] = true
			old := state[t.ns]
			if t.ok && t.update {
				m := map[string]string{}
				for k, v := range old {
					m[k] = v
				}
				for k, v := range t.writes {
					m[k] = v
				}
				state[t.ns] = m
			}
			if rec(n + 1) {
				return true
			}
			state[t.ns] = old
			used[i] = false
		}
		return false
	}
	return rec(0)
}

func runD04(c *mck.C) {
	for _, b := range []rig.Backend{rig.MemoryBackend, rig.BoltBackend, rig.BadgerBackend, rig.PostgresBackend(false), rig.PostgresBackend(true)} {
		b := b
		slow := b.Name == "badger"
		storageRun(c, b, []int{1, 1}, c.Pick(2, 3))
		if !c.Quick() || b.Name == "memory" || b.Name == "bolt" {
			many := c.Pick(60, 150)
			if slow {
				many = 20
			}
			manyNamespaces(c, b, many, 1)
		}
		if c.Quick() && slow {
			continue
		}
		storageRun(c, b, []int{2, 1}, c.Pick(1, 2))
		storageRun(c, b, []int{1, 1, 1}, c.Pick(1, 2))
		if !c.Quick() && !slow {
			storageRun(c, b, []int{2, 2}, 2)
			storageRun(c, b, []int{2, 1, 1}, 1)
		}
	}
}

func must(err error) {
	if err != nil {
		panic("mck: " + err.Error())
	}
}

// manyNamespaces runs transactions on one namespace next to one on each of many others.
func manyNamespaces(c *mck.C, b rig.Backend, many, pre int) {
	c.Explore(fmt.Sprintf("%s, %d namespaces", b.Name, many), func(x *mck.X) {
		open, closeAll := b.Open(x)
		defer closeAll()
		bg := context.Background()
		update := x.Bool("update")
		back := !c.Quick() && x.Bool("second first")
		leaf := func(i int) *pb.LeafData { return &pb.LeafData{LeafInput: []byte(fmt.Sprint("value ", i))} }
		write := func(db world.Storage, i int) error {
			return db.ExecuteUpdate(bg, nsName(i), func(_ context.Context, w verifiable.KeyWriter) error {
				return w.Set(bg, []byte("a"), leaf(i))
			})
		}
		var bad []string
		check := func(db world.Storage, i int) {
			err := db.ExecuteReadOnly(bg, nsName(i), func(_ context.Context, r verifiable.KeyReader) error {
				var v pb.LeafData
				if err := r.Get(bg, []byte("a"), &v); err != nil {
					return err
				}
				if string(v.LeafInput) != string(leaf(i).LeafInput) {
					return fmt.Errorf("namespace %d holds %q", i, v.LeafInput)
				}
				return nil
			})
			if err != nil {
				bad = append(bad, fmt.Sprintf("namespace %d: %v", i, err))
			}
		}
		mine, others := open(), open()
		must(write(mine, 0))
		r := run(x, pre, func() {
			one := func() {
				if update {
					if err := write(mine, 0); err != nil {
						bad = append(bad, fmt.Sprintf("namespace 0: %v", err))
					}
				}
				check(mine, 0)
			}
			rest := func() {
				for i := 1; i < many; i++ {
					if err := write(others, i); err != nil {
						bad = append(bad, fmt.Sprintf("namespace %d: %v", i, err))
					}
				}
			}
			if back {
				group(rest, one)
			} else {
				group(one, rest)
			}
			db := open()
			for i := 0; i < many; i++ {
				check(db, i)
			}
		})
		x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
		x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
		x.Assert(len(bad) == 0, "with %d namespaces in use: %s", many, strings.Join(bad, "; "))
		c.Trace(1)
		c.State(b.Name, "many", update, back)
		c.Eval(true, b.Name, "many", update, back)
	})
}

func storageRun(c *mck.C, b rig.Backend, shape []int, pre int) {
	histories := 4
	if c.Quick() && b.Name == "badger" {
		histories = 1
	}
	most := pre
	c.Explore(fmt.Sprintf("%s, transactions of each goroutine: %v", b.Name, shape), func(x *mck.X) {
		pre := most
		var all []*txn
		var fs []func()
		open, closeAll := b.Open(x)
		defer closeAll()
		initial := map[int]map[string]string{0: {}, 1: {}}
		if len(shape) == 2 && shape[0] == 1 && shape[1] == 1 {
			// what happened before
			db := open()
			none := func(context.Context, verifiable.KeyWriter) error { return nil }
			h := x.Choose(histories, "history")
			for ns := 0; h > 0 && ns < 2; ns++ {
				switch h {
				case 1: // an update that wrote nothing
					must(db.ExecuteUpdate(ctx, nsName(ns), none))
				case 2:
					t := &txn{name: "before", ns: ns, update: true}
					t.exec(db)
					must(t.err)
					initial[ns] = t.writes
				case 3: // a first update that failed
					if b.Transient {
						x.Prune()
					}
					t := &txn{name: "before", ns: ns, update: true, fail: true}
					t.exec(db)
				}
			}
			if h > 0 && c.Quick() && !b.Transient {
				pre = 1
			}
		}
		kinds := []string{"read", "update", "other namespace", "failing update"}
		if b.Transient {
			kinds = kinds[:3]
		}
		n := 0
		last := 0
		for gi, m := range shape {
			var mine []*txn
			for i := 0; i < m; i++ {
				k := x.Choose(len(kinds), "kind of transaction")
				if i == 0 && gi > 0 && shape[gi-1] == m && m == 1 {
					if k < last {
						x.Prune() // the same with goroutines swapped
					}
				}
				last = k
				t := &txn{name: string(rune('A' + n)), update: k > 0, fail: k == 3}
				if k == 2 {
					t.ns = 1
				}
				n++
				mine = append(mine, t)
				all = append(all, t)
			}
			db := open()
			fs = append(fs, func() {
				for _, t := range mine {
					t.exec(db)
				}
			})
		}
		any := false
		for _, t := range all {
			any = any || t.update
		}
		if !any {
			x.Prune()
		}
		final := map[int]map[string]string{}
		r := run(x, pre, func() {
			group(fs...)
			db := open()
			for ns := 0; ns < 2; ns++ {
				t := &txn{name: "final", ns: ns}
				t.exec(db)
				if t.err != nil {
					panic(fmt.Sprint("reading at the end: ", t.err))
				}
				final[ns] = t.reads
			}
		})
		x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
		x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
		for _, t := range all {
			x.Logf("%v", t)
			x.Assert(t.fail || t.ok, "transaction failed: %v", t)
			x.Assert(!t.fail || !t.ok, "a failing transaction reports success: %v", t)
			for k := range t.reads {
				x.Assert(!strings.HasPrefix(k, "own"), "transaction does not read its own writes: %v", t)
			}
		}
		x.Assert(serial(all, initial, final), "no serial order explains %v, and %v at the end", all, final)
		c.Sample(b.Name, "%v; finally %v", all, final)
		c.Trace(1)
		c.State(b.Name, shape, fmt.Sprint(all), fmt.Sprint(final))
	})
}
