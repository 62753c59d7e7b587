package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/rig"
)

func init() {
	mck.Register(mck.Check{ID: "D03", Run: runD03, Budget: 100 * time.Second,
		Rule: "on Bolt and Badger: every sequence of up to 3 (thorough: 4) mutations from a menu over two logs and a map, with the storage closed and reopened (once or twice) at every subset of positions; the same for transactions over two namespaces of a key-value store; many namespaces opened in every of several orders, with reopenings in between"})
}

func runD03(c *mck.C) {
	for _, b := range fileStores {
		b := b
		c.Explore(b.name+", services", func(x *mck.X) {
			dir := rig.ScratchDir()
			x.Defer(func() { os.RemoveAll(dir) })
			n := x.Range(1, c.Pick(3, 4), "mutations")
			if b.name == "badger" {
				n = x.Range(1, c.Pick(2, 3), "mutations")
			}
			var acts []rig.Act
			var reopen []int
			for i := 0; i < n; i++ {
				acts = append(acts, fullMenu[x.Choose(len(fullMenu), "mutation")])
				reopen = append(reopen, x.Choose(2, "reopen"))
			}
			if reopen[n-1] == 1 {
				reopen[n-1] += x.Choose(2, "again")
			}
			db, closer := b.open(dir)
			defer func() { closer() }()
			var list []*rig.Queued
			s, rec := service(db)
			for i, a := range acts {
				x.Logf("%s", a.Name)
				err := a.Do(s)
				x.Assert(err == nil, "%s: %v", a.Name, err)
				list = append(list, rec.List...)
				rec.List = nil
				for j := 0; j < reopen[i]; j++ {
					x.Logf("reopen")
					closer()
					db, closer = b.open(dir)
					s, rec = service(db)
				}
				if reopen[i] > 0 || i == n-1 {
					got, want := rig.Observe(s), rig.Reference(list)
					x.Assert(got == want, "after %s: %s", names(acts[:i+1]), differ(got, want))
					c.State(got)
				}
				c.Transition(1)
			}
			c.Trace(1)
			c.Sample(b.name, "%s", x.TraceString())
		})
		c.Explore(b.name+", key-value", func(x *mck.X) {
			dir := rig.ScratchDir()
			x.Defer(func() { os.RemoveAll(dir) })
			var ts []tx
			var reopen []bool
			n := c.Pick(2, 3)
			for i := 0; i < n; i++ {
				ts = append(ts, chooseTx(x, 1, true))
				reopen = append(reopen, x.Bool("reopen"))
			}
			db, closer := b.open(dir)
			defer func() { closer() }()
			state := []kv{{}, {}}
			for i, t := range ts {
				t.run(x, db, state)
				if reopen[i] {
					x.Logf("reopen")
					closer()
					db, closer = b.open(dir)
					for j := range nss {
						err := readBack(db, nss[j], twoKeys, state[j])
						x.Assert(err == nil, "after reopening, in %s: %v", nss[j], err)
					}
				}
			}
			c.Trace(1)
		})
		c.Explore(b.name+", many namespaces", func(x *mck.X) {
			dir := rig.ScratchDir()
			x.Defer(func() { os.RemoveAll(dir) })
			n := x.Range(2, c.Pick(4, 5), "namespaces")
			var order []int
			rest := make([]int, n)
			for i := range rest {
				rest[i] = i
			}
			for len(rest) > 0 {
				i := x.Choose(len(rest), "next")
				order = append(order, rest[i])
				rest = append(append([]int{}, rest[:i]...), rest[i+1:]...)
			}
			at := x.Choose(n+1, "reopen after")
			db, closer := b.open(dir)
			defer func() { closer() }()
			state := make([]kv, n)
			for i := range state {
				state[i] = kv{}
			}
			check := func() {
				for i, m := range state {
					err := readBack(db, fmt.Sprint("n", i), []string{"k", "l"}, m)
					x.Assert(err == nil, "namespace %d: %v", i, err)
				}
			}
			for round := 0; round < 2; round++ {
				for i, ns := range order {
					if i == at {
						closer()
						db, closer = b.open(dir)
						check()
					}
					o := op{key: []string{"k", "l"}[round], val: fmt.Sprint(ns, round)}
					err := db.ExecuteUpdate(ctx, []byte(fmt.Sprint("n", ns)), func(_ context.Context, w verifiable.KeyWriter) error { return set(w, o) })
					x.Assert(err == nil, "%v", err)
					state[ns][o.key] = o.val
					c.Transition(1)
				}
				check()
			}
			c.State(b.name, order, at)
			c.Trace(1)
		})
	}
}
