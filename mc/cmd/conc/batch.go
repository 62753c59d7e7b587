package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/batch"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/rig"
	"verifmc/vs"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "B01", Run: runB01, Budget: 100 * time.Second,
		Rule:        "every sequence of up to 3 (thorough: 4) mutations from a menu over two logs and a map, and of up to 5 (thorough: 7) from a smaller menu, up to 8 (12) different ones with every batch size, and every pair of producers with up to 2 (thorough: 4) together, 2600 (12000) in batches of 7, 1000 and all, times batch sizes 0 to 3, times buffer sizes 0, 1, 3, on every schedule with at most 1 or 2 (thorough: 3) preemptions or early timeouts; the producer overwrites its request after each acknowledgement",
		Assumptions: []string{"a single process writes to the storage"}})
}

// service makes a service with a batch mutator.
func batchService(db world.Storage, size, buffer int) (world.Service, *rig.Recorder) {
	r := &rig.Recorder{Inner: (&batch.Mutator{Writer: db, Timeout: time.Second, BatchSize: size, BufferSize: buffer}).MustCreate()}
	s, err := (&verifiable.Service{AccessPolicy: policy.Open, Reader: db, Mutator: r}).Create()
	if err != nil {
		panic(err)
	}
	return s, r
}

func runB01(c *mck.C) {
	one := func(name string, menu []rig.Act, min, max, pre int, sizes, buffers []int) {
		c.Explore(name, func(x *mck.X) {
			size := sizes[x.Choose(len(sizes), "batch size")]
			buffer := buffers[x.Choose(len(buffers), "buffer size")]
			n := x.Range(min, max, "mutations")
			var acts []rig.Act
			for i := 0; i < n; i++ {
				acts = append(acts, menu[x.Choose(len(menu), "mutation")])
			}
			batchRun(x, size, buffer, pre, [][]rig.Act{acts})
		})
	}
	one("one producer", rig.Menu, 1, c.Pick(2, 4), 2, []int{0, 1, 2, 3}, []int{0, 1, 3})
	if c.Quick() {
		one("one producer, three mutations", rig.Menu, 3, 3, 1, []int{1, 2, 3}, []int{0, 1})
	}
	one("values with the same leaf input", rig.TwinMenu, 2, 3, c.Pick(0, 1), []int{2, 3}, []int{2})
	one("one producer, long sequences", rig.SmallMenu, 4, c.Pick(4, 6), c.Pick(0, 2), []int{0, 2, 3}, []int{1, 4})
	one("one producer, longer sequences", rig.SmallMenu, c.Pick(5, 7), c.Pick(5, 7), c.Pick(0, 1), []int{2, 3, 4}, []int{1, 4})
	c.Explore("long logs and maps", func(x *mck.X) {
		n := x.Range(4, c.Pick(8, 12), "mutations")
		size := x.Range(0, n, "batch size")
		buffer := []int{1, 20}[x.Choose(2, "buffer size")]
		var acts []rig.Act
		kinds := 3
		if n > c.Pick(5, 7) {
			kinds = 1
		}
		k := x.Choose(3, "kind")
		for i := 0; i < n; i++ {
			if kinds > 1 && i > 0 {
				k = x.Choose(2, "same kind")*(1+i%2) + k
			}
			switch k % 3 {
			case 0:
				acts = append(acts, rig.AddAct("X", fmt.Sprint("e", i)))
			case 1:
				acts = append(acts, rig.MapAct(fmt.Sprintf("set %c=%d", "kj"[i%2], i), "set", string("kj"[i%2]), fmt.Sprint(i), nil))
			case 2:
				acts = append(acts, rig.AddAct("Y", fmt.Sprint("e", i/2)))
			}
		}
		batchRun(x, size, buffer, 0, [][]rig.Act{acts})
	})
	// batches that hold thousands of mutations, of logs, of a map, with some twice
	long := c.Pick(2600, 12000)
	c.Explore("very long batches", func(x *mck.X) {
		size := []int{0, 7, 1000, long}[x.Choose(4, "batch size")]
		kind := x.Choose(3, "kind")
		buffer := []int{1, long}[x.Choose(2, "buffer size")]
		n := long
		if kind > 0 {
			n /= 8
		}
		var acts []rig.Act
		for i := 0; i < n; i++ {
			switch {
			case kind == 0 && i%97 == 96:
				acts = append(acts, rig.AddAct("X", fmt.Sprint("e", i/2)))
			case kind == 0 || kind == 2 && i > n/2:
				acts = append(acts, rig.AddAct("X", fmt.Sprint("e", i)))
			default:
				acts = append(acts, rig.MapAct("set", "set", []string{"k", "j", fmt.Sprint("key", i)}[i%3], fmt.Sprint(i), nil))
			}
		}
		var s world.Service
		var rec *rig.Recorder
		r := run(x, 0, func() {
			s, rec = batchService(&memory.TransientStorage{}, size, buffer)
			for _, a := range acts {
				if err := a.Do(s); err != nil {
					panic(fmt.Sprintf("%s: %v", a.Name, err))
				}
			}
			vs.Idle()
		})
		x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
		x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
		got, want := rig.Glance(s), rig.GlanceReference(rec.List)
		if got != want {
			at := 0
			for at < len(got) && at < len(want) && got[at] == want[at] {
				at++
			}
			x.Failf("after %d mutations (kind %d) in batches of %d, differing from one by one at:\n...%.300s\nand\n...%.300s", n, kind, size, got[max(0, at-80):], want[max(0, at-80):])
		}
		x.C.State("long", size, kind, buffer)
		x.C.Trace(1)
	})
	two := func(name string, shapes [][2]int, menu []rig.Act, sizes []int, pre int) {
		c.Explore(name, func(x *mck.X) {
			size := sizes[x.Choose(len(sizes), "batch size")]
			buffer := x.Choose(2, "buffer size")
			var acts [][]rig.Act
			for _, k := range shapes[x.Choose(len(shapes), "shape")] {
				var as []rig.Act
				for i := 0; i < k; i++ {
					as = append(as, menu[x.Choose(len(menu), "mutation")])
				}
				acts = append(acts, as)
			}
			batchRun(x, size, buffer, pre, acts)
		})
	}
	two("two producers", [][2]int{{1, 1}}, []rig.Act{rig.Menu[0], rig.Menu[2], rig.Menu[3]}, []int{1, 2}, 1)
	two("two producers, two and one mutations", [][2]int{{2, 1}}, []rig.Act{rig.Menu[0], rig.Menu[1]}, []int{2}, 1)
	if !c.Quick() {
		two("two producers, two mutations each", [][2]int{{2, 2}, {3, 1}}, rig.Menu[:4], []int{1, 2, 3}, 1)
		two("two producers, more preemptions", [][2]int{{1, 1}, {2, 1}}, rig.Menu, []int{1, 2, 3}, 2)
	}
}

func batchRun(x *mck.X, size, buffer, pre int, acts [][]rig.Act) {
	db := &memory.TransientStorage{}
	var s world.Service
	var rec *rig.Recorder
	r := run(x, pre, func() {
		s, rec = batchService(db, size, buffer)
		do := func(as []rig.Act) {
			for _, a := range as {
				vs.Point(a.Name)
				if err := a.Do(s); err != nil {
					panic(fmt.Sprintf("%s: %v", a.Name, err))
				}
			}
		}
		if len(acts) == 1 {
			do(acts[0])
		} else {
			var fs []func()
			for _, as := range acts {
				fs = append(fs, func() { do(as) })
			}
			group(fs...)
		}
		vs.Idle()
	})
	x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
	x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
	got := rig.Observe(s)
	x.C.State(got)
	x.C.Trace(1)
	if len(acts) == 1 {
		want := rig.Reference(rec.List)
		x.C.Sample("batches", "%v with batch size %d and buffer size %d", rec.List, size, buffer)
		x.Assert(got == want, "after all batches:\n%s\nafter applying the mutations one by one:\n%s", got, want)
		return
	}
	// some order of acceptance must explain it
	ok := false
	tried := ""
	var rec2 func(done []*rig.Queued)
	rec2 = func(done []*rig.Queued) {
		if ok {
			return
		}
		if len(done) == len(rec.List) {
			want := rig.Reference(done)
			tried = want
			ok = got == want
			return
		}
	next:
		for _, q := range rec.List {
			for _, d := range done {
				if d == q {
					continue next
				}
			}
			for _, o := range rec.List {
				in := false
				for _, d := range done {
					in = in || d == o
				}
				if !in && o != q && o.To < q.From {
					continue next
				}
			}
			rec2(append(append([]*rig.Queued{}, done...), q))
		}
	}
	rec2(nil)
	x.Assert(ok, "after all batches:\n%s\nno order of acceptance explains that, for example not\n%s", got, tried)
}
