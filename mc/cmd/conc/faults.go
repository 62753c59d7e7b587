package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/rig"
	"verifmc/vs"
	"verifmc/world"
)

func init() {
	mck.Register(mck.Check{ID: "B02", Run: runB02, Level: "fault_enumeration", Budget: 100 * time.Second,
		Rule:        "every sequence of up to 3 (thorough: 4) mutations over two logs and a map, times batch sizes 1 to 3, with every storage operation of the mutator failing, being the last before a crash, and for commits taking effect although the process sees an error or ends; then a restart, reading, and going on, also with the same mutations again; the same with 60 log entries or 12 map mutations (thorough: 300, 60) in one or two batches, and with 1300 or 150 (thorough: 5000, 1000) and faults at the beginning and end of transactions; and concurrent readers of the batches on every schedule with at most 1 (thorough: 2) preemptions",
		Assumptions: []string{"the storage is a transactional model with atomic commits (D01, D02 and D04 are about the real backends); log.Fatal ends the process"}})
}

var errInjected = errors.New("injected storage failure")

// txStore is a transactional store whose operations can fail.
type txStore struct {
	mu    vs.Mutex
	m     map[string]map[string][]byte
	fault func(op string) string // "", "error", "crash", and for commits "error after" and "crash after"
}

type txView struct {
	s       *txStore
	ns      string
	base    map[string][]byte
	changed map[string][]byte // nil values are deleted
}

func (s *txStore) at(op string) error {
	if s.fault == nil {
		return nil
	}
	switch s.fault(op) {
	case "error":
		return errInjected
	case "crash":
		vs.Die("crash")
	}
	return nil
}

func (v *txView) Get(_ context.Context, key []byte, value proto.Message) error {
	if err := v.s.at("get"); err != nil {
		return err
	}
	b, ok := v.changed[string(key)]
	if ok && b == nil {
		return verifiable.ErrNoSuchKey
	}
	if !ok {
		b, ok = v.base[string(key)]
	}
	if !ok {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(b, value)
}

func (v *txView) Set(_ context.Context, key []byte, value proto.Message) error {
	if err := v.s.at("set"); err != nil {
		return err
	}
	if value == nil {
		v.changed[string(key)] = nil
		return nil
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	v.changed[string(key)] = append([]byte{}, b...)
	return nil
}

func (s *txStore) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	vs.Point("begin reading")
	if err := s.at("begin"); err != nil {
		return err
	}
	return f(ctx, &txView{s: s, base: s.m[string(ns)]})
}

func (s *txStore) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.at("begin"); err != nil {
		return err
	}
	v := &txView{s: s, base: s.m[string(ns)], changed: map[string][]byte{}}
	if err := f(ctx, v); err != nil {
		return err
	}
	k := ""
	if s.fault != nil {
		k = s.fault("commit")
	}
	switch k {
	case "error":
		return errInjected
	case "crash":
		vs.Die("crash")
	}
	n := map[string][]byte{}
	for a, b := range v.base {
		n[a] = b
	}
	for a, b := range v.changed {
		if b == nil {
			delete(n, a)
		} else {
			n[a] = b
		}
	}
	s.m[string(ns)] = n
	switch k {
	case "error after":
		return errInjected
	case "crash after":
		vs.Die("crash")
	}
	return nil
}

var extra = []rig.Act{rig.AddAct("X", "later"), rig.MapAct("set k=9", "set", "k", "9", nil), rig.AddAct("Y", "later")}

// prefixes are the ways to take a prefix of the mutations of each namespace,
// keeping their order.
func prefixes(list []*rig.Queued) [][]*rig.Queued {
	var nss []string
	n := map[string]int{}
	for _, q := range list {
		if n[q.NS] == 0 {
			nss = append(nss, q.NS)
		}
		n[q.NS]++
	}
	var rv [][]*rig.Queued
	take := map[string]int{}
	var rec func(i int)
	rec = func(i int) {
		if i == len(nss) {
			left := map[string]int{}
			for k, v := range take {
				left[k] = v
			}
			var l []*rig.Queued
			for _, q := range list {
				if left[q.NS] > 0 {
					left[q.NS]--
					l = append(l, q)
				}
			}
			rv = append(rv, l)
			return
		}
		for k := n[nss[i]]; k >= 0; k-- {
			take[nss[i]] = k
			rec(i + 1)
		}
	}
	rec(0)
	return rv
}

// prefixOfSize is the prefix of mutations of one object that is as long as the
// object is.
func prefixOfSize(st world.Storage, list []*rig.Queued) [][]*rig.Queued {
	n := int64(0)
	if len(list) > 0 {
		st.ExecuteReadOnly(ctx, []byte(list[0].NS), func(ctx context.Context, kr verifiable.KeyReader) error {
			var err error
			n, err = verifiable.ReadObjectSize(ctx, kr)
			return err
		})
	}
	if n > int64(len(list)) {
		return nil
	}
	return [][]*rig.Queued{list[:n]}
}

func runB02(c *mck.C) {
	faults := func(name string, menu []rig.Act, min, max int, sizes []int) {
		c.Explore(name, func(x *mck.X) {
			size := sizes[x.Choose(len(sizes), "batch size")]
			n := x.Range(min, max, "mutations")
			var acts []rig.Act
			for i := 0; i < n; i++ {
				acts = append(acts, menu[x.Choose(len(menu), "mutation")])
			}
			faultRun(x, size, acts)
		})
	}
	faults("faults", rig.Menu, 1, 2, []int{1, 2})
	faults("faults in longer sequences", []rig.Act{rig.Menu[0], rig.Menu[1], rig.Menu[2]}, 3, c.Pick(3, 4), []int{2, 3})
	if !c.Quick() {
		faults("faults, three mutations", rig.Menu, 3, 3, []int{1, 2, 3})
	}
	var manyAdds, manySets []rig.Act
	for i := 0; i < c.Pick(60, 300); i++ {
		manyAdds = append(manyAdds, rig.AddAct("X", fmt.Sprint("many ", i)))
	}
	for i := 0; i < c.Pick(12, 60); i++ {
		manySets = append(manySets, rig.MapAct("set", "set", fmt.Sprint("key ", i), fmt.Sprint("value ", i), nil))
	}
	c.Explore("faults in large batches", func(x *mck.X) {
		acts := [][]rig.Act{manyAdds, manySets}[x.Choose(2, "log or map")]
		// one batch with all, and one that is followed by another
		size := []int{len(acts), len(acts)*2/3 + 1}[x.Choose(2, "batch size")]
		faultRun(x, size, acts)
	})
	var very, verySets []rig.Act
	for i := 0; i < c.Pick(1300, 5000); i++ {
		very = append(very, rig.AddAct("X", fmt.Sprint("many ", i)))
	}
	for i := 0; i < c.Pick(150, 1000); i++ {
		verySets = append(verySets, rig.MapAct("set", "set", fmt.Sprint("key ", i), fmt.Sprint("value ", i), nil))
	}
	c.Explore("faults of transactions in very large batches", func(x *mck.X) {
		acts := [][]rig.Act{very, verySets}[x.Choose(2, "log or map")]
		size := []int{0, len(acts), len(acts)*2/3 + 1}[x.Choose(3, "batch size")]
		faultRunOf(x, size, acts, true)
	})
	c.Explore("readers", func(x *mck.X) {
		size := x.Range(2, 3, "batch size")
		n := x.Range(1, c.Pick(2, 3), "mutations")
		m := []rig.Act{rig.Menu[0], rig.Menu[2], rig.Menu[3]}
		var acts []rig.Act
		for i := 0; i < n; i++ {
			acts = append(acts, m[x.Choose(len(m), "mutation")])
		}
		readerRun(x, size, acts, c.Pick(1, 2), c.Pick(1, 2))
	})
}

func faultRun(x *mck.X, size int, acts []rig.Act) { faultRunOf(x, size, acts, false) }

// faultRunOf has, when coarse, faults only at the beginning and at the end of
// transactions.
func faultRunOf(x *mck.X, size int, acts []rig.Act, coarse bool) {
	observe, reference := rig.Observe, rig.Reference
	if coarse {
		observe, reference = rig.Glance, rig.GlanceReference
	}
	st := &txStore{m: map[string]map[string][]byte{}}
	// The injected fault is chosen before, so that all choices are made here.
	at := -1
	kind := ""
	if x.Bool("fault") {
		kind = []string{"error", "crash", "error after", "crash after"}[x.Choose(4, "kind of fault")]
	}
	var kinds []string
	ops := 0
	// A dry run counts the operations.
	count := func(hit int, kind string) (*rig.Recorder, *vs.Result) {
		st.m = map[string]map[string][]byte{}
		ops = 0
		kinds = nil
		st.fault = func(op string) string {
			ops++
			kinds = append(kinds, op)
			if ops-1 == hit {
				return kind
			}
			return ""
		}
		var rec *rig.Recorder
		r := run(x, 0, func() {
			var s world.Service
			s, rec = batchService(st, size, len(acts))
			for _, a := range acts {
				if err := a.Do(s); err != nil {
					panic(fmt.Sprintf("%s: %v", a.Name, err))
				}
			}
			vs.Idle()
		})
		return rec, r
	}
	_, r := count(-1, "")
	x.Assert(r.Main && !r.IsFatal, "without a fault: %+v", r)
	if kind != "" {
		var where []int
		for i, k := range kinds {
			if k == "commit" || !strings.HasSuffix(kind, "after") && (!coarse || k == "begin") {
				where = append(where, i)
			}
		}
		at = where[x.Choose(len(where), "operation")]
		x.Logf("%s at operation %d, %s", kind, at, kinds[at])
	}
	rec, r := count(at, kind)
	if kind == "" {
		x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
	}
	if !r.IsFatal {
		x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
	}
	// a restart
	st.fault = nil
	got := observe(world.On(st, policy.Open))
	var from []*rig.Queued
	found := false
	candidates := prefixes
	if len(acts) > 10 {
		candidates = func(list []*rig.Queued) [][]*rig.Queued { return prefixOfSize(st, list) }
	}
	for _, p := range candidates(rec.List) {
		if reference(p) == got {
			from, found = p, true
			break
		}
	}
	x.Assert(found, "after %v, of %v:\n%s\nwhich is not the state after the first of the mutations to each object", r.Fatal, rec.List, got)
	if kind == "" {
		x.Assert(got == reference(rec.List), "without a fault, %v give:\n%s", rec.List, got)
	}
	x.C.State(got, kind)
	x.C.Sample("faults", "%v, batch size %d, %s at operation %d (%s): %d of %d mutations are there", rec.List, size, kind, at, kinds[max(at, 0)], len(from), len(rec.List))
	// and it goes on, also with what may have been lost
	again := acts
	if len(acts) > 10 {
		again = nil
		for i := range acts {
			if i < 3 || i >= len(from) && i < len(from)+3 || i >= len(acts)-3 {
				again = append(again, acts[i])
			}
		}
	}
	again = append(append([]rig.Act{}, again...), extra...)
	r = run(x, 0, func() {
		var s world.Service
		s, rec = batchService(st, size, 1)
		for _, a := range again {
			if err := a.Do(s); err != nil {
				panic(fmt.Sprintf("%s: %v", a.Name, err))
			}
		}
		vs.Idle()
	})
	x.Assert(!r.IsFatal, "after the restart, the process was ended: %s", r.Fatal)
	x.Assert(r.Main, "after the restart, deadlock: %s", strings.Join(r.Blocked, "; "))
	got = observe(world.On(st, policy.Open))
	want := reference(append(append([]*rig.Queued{}, from...), rec.List...))
	x.Assert(got == want, "after going on:\n%s\nbut one by one:\n%s", got, want)
	x.C.Trace(1)
}

// look is one thing a reader looks at.
type look struct {
	name string
	f    func(s world.Service) string
}

func logLook(name string, t pb.LogType) look {
	return look{fmt.Sprint(name, " ", t), func(s world.Service) string {
		l := &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: name, LogType: t}
		h, err := s.LogTreeHash(ctx, &pb.LogTreeHashRequest{Log: l})
		return fmt.Sprintf("%d %x %v", h.GetTreeSize(), h.GetRootHash(), err)
	}}
}

var looks = []look{
	logLook("X", pb.LogType_STRUCT_TYPE_LOG),
	{"entries", func(s world.Service) string {
		l := &pb.LogRef{Account: &pb.AccountRef{Id: "0"}, Name: "X", LogType: pb.LogType_STRUCT_TYPE_LOG}
		e, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: l})
		return fmt.Sprint(e.GetValues(), err)
	}},
	logLook("M", pb.LogType_STRUCT_TYPE_TREEHEAD_LOG),
	logLook("M", pb.LogType_STRUCT_TYPE_MUTATION_LOG),
	{"map head", func(s world.Service) string {
		h, err := s.MapTreeHash(ctx, &pb.MapTreeHashRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "M"}})
		return fmt.Sprintf("%d %x %v", h.GetMutationLog().GetTreeSize(), h.GetRootHash(), err)
	}},
	{"map value", func(s world.Service) string {
		v, err := s.MapGetValue(ctx, &pb.MapGetValueRequest{Map: &pb.MapRef{Account: &pb.AccountRef{Id: "0"}, Name: "M"}, Key: []byte("k")})
		return fmt.Sprintf("%d %s %v", v.GetTreeSize(), world.Str(v.GetValue()), err)
	}},
}

// readerRun has a reader look at all things of one object.
func readerRun(x *mck.X, size int, acts []rig.Act, pre, rounds int) {
	db := &memory.TransientStorage{}
	var rec *rig.Recorder
	k := x.Choose(2, "log or map")
	mine := looks[:2]
	if k == 1 {
		mine = looks[2:]
	}
	var seen [][2]string
	r := run(x, pre, func() {
		var s world.Service
		s, rec = batchService(db, size, 0)
		group(func() {
			for _, a := range acts {
				if err := a.Do(s); err != nil {
					panic(fmt.Sprintf("%s: %v", a.Name, err))
				}
			}
		}, func() {
			for i := 0; i < rounds; i++ {
				for _, l := range mine {
					seen = append(seen, [2]string{l.name, l.f(s)})
				}
			}
		})
		vs.Idle()
	})
	x.Assert(!r.IsFatal, "the process was ended: %s", r.Fatal)
	x.Assert(r.Main, "deadlock: %s", strings.Join(r.Blocked, "; "))
	// each must be as in a state at least as late as the one before
	at := 0
	states := make([]world.Service, len(rec.List)+1)
	for i := range states {
		states[i] = rig.ReferenceService(rec.List[:i])
	}
	for _, o := range seen {
		var l look
		for _, m := range looks {
			if m.name == o[0] {
				l = m
			}
		}
		for at <= len(rec.List) && l.f(states[at]) != o[1] {
			at++
		}
		x.Assert(at <= len(rec.List), "a reader saw, one after another, %q\nwhich are not successive states of %v", seen, rec.List)
	}
	x.C.State(fmt.Sprint(seen))
	x.C.Trace(1)
}
