package main

import (
	"errors"
	"fmt"
	"os"
	"sync"
	"time"

	"verifmc/mck"
	"verifmc/rig"
	"verifmc/vfs"
)

func init() {
	mck.Register(mck.Check{ID: "D02", Level: "fault_enumeration", Run: runD02, Budget: 110 * time.Second,
		Rule:        "on Bolt and Badger: every sequence of up to 3 mutations from a menu over two logs (with small and large entries) and a map; a crash before and after every file operation, with every subset (of up to 4 pages; beyond that every prefix, single loss and single survivor) of the unsynced pages lost, and each torn in half; each distinct image is reopened, compared with the states the history passed through, and mutated further (after a single mutation: and crashed again in all those ways); on Bolt, an I/O error at each file operation, once or from then on",
		Assumptions: []string{"creating, removing, renaming and shrinking files is durable at once and in order", "file contents that were never synced are lost together or not at all", "a file grows in order, and pages are torn in halves at most", "Badger's tables are 2 MB instead of 64 MB"}})
}

type snap struct {
	im             *vfs.Image
	acked, started int
	what           string
}

func runD02(c *mck.C) {
	var seen sync.Map
	for _, b := range fileStores {
		b := b
		menu := fullMenu
		max := 3
		if b.name == "badger" {
			max = c.Pick(2, 3)
		}
		crashes := func(name string, menu []rig.Act, n int, double bool) {
			c.Explore(b.name+", "+name, func(x *mck.X) {
				var acts []rig.Act
				for i := 0; i < n; i++ {
					acts = append(acts, menu[x.Choose(len(menu), "mutation")])
				}
				crash(x, b, &seen, nil, nil, acts, double)
				c.Sample(b.name, "%s; %s", names(acts), x.TraceString())
			})
		}
		crashes("crashes", menu, max, false)
		if max < 3 {
			crashes("crashes of longer histories", []rig.Act{menu[0], menu[2], menu[3]}, 3, false)
		}
		crashes("double crashes", menu, 1, true)
		if b.name == "badger" {
			continue // it does not survive such errors, and need not
		}
		c.Explore(b.name+", input and output errors", func(x *mck.X) { ioErrors(x, b, c.Pick(2, 3)) })
	}
}

// crash runs a history on top of an image and, for each image that a crash
// can leave behind, reopens it.
func crash(x *mck.X, b fileStore, seen *sync.Map, from *snap, before []*rig.Queued, acts []rig.Act, double bool) {
	dir := rig.ScratchDir()
	x.Defer(func() { os.RemoveAll(dir) })
	var im *vfs.Image
	if from != nil {
		im = from.im
		if err := im.Write(dir); err != nil {
			panic("mck: " + err.Error())
		}
	}
	disk := vfs.Track(dir, im)
	var snaps []snap
	here := map[uint64]bool{}
	acked, started := 0, 0
	disk.OnEvent = func(kind, path string) error {
		disk.Images(4, true, func(im *vfs.Image) {
			h := im.Hash()
			k := h ^ uint64(acked*1000+started)*0x9e3779b97f4a7c15
			if !here[k] {
				here[k] = true
				snaps = append(snaps, snap{im, acked, started, fmt.Sprintf("before %s %s, %s", kind, path, im.Name)})
			}
		})
		x.C.Transition(1)
		return nil
	}
	db, closer := b.open(dir)
	s, rec := service(db)
	for _, a := range acts {
		disk.Locked(func() { started++ })
		err := a.Do(s)
		x.Assert(err == nil, "%s: %v", a.Name, err)
		disk.Locked(func() { acked++ })
		disk.Event("acknowledgement of " + a.Name)
	}
	if b.name == "bolt" {
		disk.Check()
	}
	closer()
	disk.Untrack()
	list := append(append([]*rig.Queued{}, before...), rec.List...)
	for i := range snaps {
		sn := &snaps[i]
		k := fmt.Sprint(b.name, sn.im.Hash(), sn.acked, rig.Key(list[:len(before)+sn.started]), double)
		if _, dup := seen.LoadOrStore(k, true); dup {
			continue
		}
		x.C.Eval(true, k)
		done, found := reopen(x, b, sn, len(before), list)
		x.Assert(found >= 0, "history %s; crash %s, with %d mutations acknowledged and %d started; reopened: %s", names(acts), sn.what, sn.acked, sn.started, done)
		x.C.State(b.name, done)
		if double && from == nil {
			crash(x, b, seen, sn, list[:len(before)+found], []rig.Act{extra[0]}, true)
		}
	}
	x.Logf("%d images", len(snaps))
	x.C.Trace(1)
}

var extra = []rig.Act{rig.AddAct("X", "later"), rig.AddAct("Y", "later"), rig.MapAct("set k=9", "set", "k", "9", nil)}

// reopen opens an image and says at which point of the history it is, or what
// is wrong with it.
func reopen(x *mck.X, b fileStore, sn *snap, base int, list []*rig.Queued) (string, int) {
	dir := rig.ScratchDir()
	defer os.RemoveAll(dir)
	if err := sn.im.Write(dir); err != nil {
		panic("mck: " + err.Error())
	}
	db, closer := b.open(dir)
	defer closer()
	s, rec := service(db)
	got := rig.Observe(s)
	found := -1
	for k := base + sn.acked; k <= base+sn.started && found < 0; k++ {
		if rig.Reference(list[:k]) == got {
			found = k - base
		}
	}
	if found < 0 {
		return differ(got, rig.Reference(list[:base+sn.acked])), -1
	}
	for _, a := range extra {
		if err := a.Do(s); err != nil {
			return fmt.Sprintf("continuing with %s: %v", a.Name, err), -1
		}
	}
	now := append(append([]*rig.Queued{}, list[:base+found]...), rec.List...)
	got2, want := rig.Observe(s), rig.Reference(now)
	if got2 != want {
		return "after continuing: " + differ(got2, want), -1
	}
	return got, found
}

var errIO = errors.New("input/output error")

// ioErrors has a file operation fail.
func ioErrors(x *mck.X, b fileStore, max int) {
	menu := []rig.Act{fullMenu[0], fullMenu[2], fullMenu[3], largeAct}
	var acts []rig.Act
	for i := 0; i < max; i++ {
		acts = append(acts, menu[x.Choose(len(menu), "mutation")])
	}
	dir := rig.ScratchDir()
	x.Defer(func() { os.RemoveAll(dir) })
	disk := vfs.Track(dir, nil)
	fail := x.Choose(60, "failing operation")
	forever := x.Bool("from then on")
	n, hit := 0, false
	disk.OnEvent = func(kind, path string) error {
		n++
		if n == fail+1 || forever && n > fail {
			if !hit {
				x.Logf("error at %s %s", kind, path)
			}
			hit = true
			return errIO
		}
		return nil
	}
	db, closer := b.open(dir)
	s, rec := service(db)
	var got []string
	for _, a := range acts {
		err := a.Do(s)
		got = append(got, fmt.Sprint(a.Name, ": ", err))
	}
	if !hit {
		closer()
		disk.Untrack()
		x.Prune()
	}
	disk.OnEvent = nil
	var images []*vfs.Image
	disk.OnEvent = func(kind, path string) error {
		disk.Images(4, false, func(im *vfs.Image) { images = append(images, im) })
		return nil
	}
	disk.Event("end")
	disk.OnEvent = nil
	closer()
	images = append(images, disk.Now())
	disk.Untrack()
	x.C.Eval(true, b.name, x.TraceString(), names(acts))
	seen := map[uint64]bool{}
	for _, im := range images {
		if seen[im.Hash()] {
			continue
		}
		seen[im.Hash()] = true
		ok, why := someSubset(b, im, rec.List)
		x.Assert(ok, "%v; %s; then reopened: %s", got, im.Name, why)
	}
	x.C.Trace(1)
	x.C.Sample(b.name+" errors", "%v; %s", got, x.TraceString())
}

// someSubset says whether what is in the image is what was acknowledged, with
// or without what was not.
func someSubset(b fileStore, im *vfs.Image, list []*rig.Queued) (bool, string) {
	dir := rig.ScratchDir()
	defer os.RemoveAll(dir)
	if err := im.Write(dir); err != nil {
		panic("mck: " + err.Error())
	}
	db, closer := b.open(dir)
	defer closer()
	s, _ := service(db)
	got := rig.Observe(s)
	why := ""
	for m := 0; m < 1<<len(list); m++ {
		var l []*rig.Queued
		ok := true
		for i, q := range list {
			if m>>i&1 == 1 {
				l = append(l, q)
			} else {
				ok = ok && !q.Accepted
			}
		}
		if !ok {
			continue
		}
		want := rig.Reference(l)
		if got == want {
			return true, ""
		}
		why = differ(got, want)
	}
	return false, why
}
