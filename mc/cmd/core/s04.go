package main

import (
	"context"
	"fmt"
	"time"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/protobuf/proto"

	"verifmc/mck"
	"verifmc/ref"
	"verifmc/world"
)

// The policy model: which names a pattern matches, which permission an
// operation needs, and when a rule applies.

var s04Names = []string{"obj", "other", ""}

// s04Patterns lists, per pattern, the names of s04Names it matches.
var s04Patterns = []struct {
	pat     string
	matches string
}{
	{"*", "obj|other|"},
	{"obj", "obj"},
	{"ob*", "obj"},
	{"o?j", "obj"},
	{"o*", "obj|other"},
	{"[a-o]bj", "obj"},
	{"x*", "-"},
	{"?", "-"},
	{"", ""},
	{"[", "-"},    // malformed
	{"ob[j", "-"}, // malformed
	{"OBJ", "-"},
	{"ob", "-"},
	{"objx", "-"},
	{"bj", "-"},
	{"o\\bj", "obj"},
}

func patternMatches(matches, name string) bool {
	for i, n := range s04Names {
		if n != name {
			continue
		}
		switch i {
		case 0:
			return matches == "obj" || matches == "obj|other" || matches == "obj|other|"
		case 1:
			return matches == "obj|other" || matches == "obj|other|"
		case 2:
			return matches == "" || matches == "obj|other|"
		}
	}
	panic("mck: unknown name")
}

// op is an operation together with the permission it needs (-1: none suffices).
type s04Op struct {
	name string
	need pb.Permission
	req  func(acc *pb.AccountRef, obj string) proto.Message
}

const never = pb.Permission(-1)

func s04Ops() (rv []s04Op) {
	add := func(name string, need pb.Permission, f func(acc *pb.AccountRef, obj string) proto.Message) {
		rv = append(rv, s04Op{name, need, f})
	}
	for _, t := range []struct {
		lt                     pb.LogType
		add, read, hash, prove pb.Permission
	}{
		{ltLog, pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_LOG_READ_HASH, pb.Permission_PERM_LOG_PROVE_INCLUSION},
		{ltMut, never, pb.Permission_PERM_MAP_MUTATION_READ_ENTRY, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH},
		{ltHead, never, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH, pb.Permission_PERM_MAP_MUTATION_READ_HASH},
	} {
		t := t
		l := func(acc *pb.AccountRef, obj string) *pb.LogRef {
			return &pb.LogRef{Account: acc, Name: obj, LogType: t.lt}
		}
		add(fmt.Sprint("add to ", t.lt), t.add, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.LogAddEntryRequest{Log: l(acc, obj), Value: world.Leaf("new", "x")}
		})
		add(fmt.Sprint("read entries of ", t.lt), t.read, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.LogFetchEntriesRequest{Log: l(acc, obj)}
		})
		add(fmt.Sprint("hash of ", t.lt), t.hash, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.LogTreeHashRequest{Log: l(acc, obj)}
		})
		add(fmt.Sprint("consistency of ", t.lt), t.hash, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.LogConsistencyProofRequest{Log: l(acc, obj), FromSize: 1}
		})
		add(fmt.Sprint("inclusion by index in ", t.lt), t.prove, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.LogInclusionProofRequest{Log: l(acc, obj), LeafIndex: 1}
		})
		add(fmt.Sprint("inclusion by hash in ", t.lt), t.prove, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.LogInclusionProofRequest{Log: l(acc, obj), MtlHash: ref.Leaf([]byte("e0"))}
		})
	}
	m := func(acc *pb.AccountRef, obj string) *pb.MapRef { return &pb.MapRef{Account: acc, Name: obj} }
	for _, act := range []string{"set", "delete", "update"} {
		act := act
		add("map "+act, pb.Permission_PERM_MAP_SET_VALUE, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.MapSetValueRequest{Map: m(acc, obj), Mutation: &pb.MapMutation{Action: act, Key: []byte("k0"), Value: world.Leaf("new", "x")}}
		})
	}
	for _, k := range []string{"k0", "absent"} {
		k := k
		add("map get "+k, pb.Permission_PERM_MAP_GET_VALUE, func(acc *pb.AccountRef, obj string) proto.Message {
			return &pb.MapGetValueRequest{Map: m(acc, obj), Key: []byte(k)}
		})
	}
	add("map hash", pb.Permission_PERM_MAP_GET_VALUE, func(acc *pb.AccountRef, obj string) proto.Message {
		return &pb.MapTreeHashRequest{Map: m(acc, obj)}
	})
	return rv
}

// rule of the model.
type s04Rule struct {
	acct string
	key  string
	pat  int
	perm []pb.Permission
}

func (r s04Rule) grants(need pb.Permission, acct, key, name string) bool {
	if r.acct != acct || need == never {
		return false
	}
	if r.key != "*" && (r.key == "" || r.key != key) {
		return false
	}
	if !patternMatches(s04Patterns[r.pat].matches, name) {
		return false
	}
	for _, p := range r.perm {
		if p == need || p == pb.Permission_PERM_ALL_PERMISSIONS {
			return true
		}
	}
	return false
}

func (r s04Rule) pb() *pb.AccessPolicy {
	return &pb.AccessPolicy{ApiKey: r.key, NameMatch: s04Patterns[r.pat].pat, Permissions: r.perm, AllowedFields: []string{"*"}}
}

var s04Accounts = []string{"1", "2", ""}

// s04World is a store with every object filled; contents differ.
func s04Fill() *world.Store {
	db := &world.Store{}
	s := world.On(db, policy.Open)
	for _, a := range s04Accounts {
		for _, n := range s04Names {
			acc := &pb.AccountRef{Id: a}
			for i := 0; i < 2; i++ {
				in := fmt.Sprintf("e%d", i)
				if i > 0 {
					in += a + "/" + n
				}
				_, err := s.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: n}, Value: world.Leaf(in, "x")})
				must(err)
				_, err = s.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: n}, Mutation: &pb.MapMutation{Action: "set", Key: []byte(fmt.Sprint("k", i)), Value: world.Leaf(in, "x")}})
				must(err)
			}
		}
	}
	return db
}

func init() {
	mck.Register(mck.Check{
		ID:     "S04",
		Rule:   "an operation succeeds exactly when a rule of a small independent policy model grants its permission; what is refused has code PermissionDenied, no effect, and the same answer whether or not the object has contents; what is allowed answers as under the open policy",
		Budget: 150 * time.Second,
		Run:    runS04,
	})
}

type s04Env struct {
	full, empty *world.Store
	want        map[string]proto.Message
	wantErr     map[string]error
}

func (e *s04Env) tryAll(x *mck.X, rules []s04Rule, accounts []*pb.ResourceAccount, keys, accts, names []string) {
	pol := &policy.Static{Policy: accounts}
	full, empty := e.full.Clone(), (&world.Store{}).Clone()
	mk := func(db *world.Store) world.Service {
		s, err := (&verifiable.Service{AccessPolicy: pol, Reader: db, Mutator: &instant.Mutator{Writer: db}}).Create()
		must(err)
		return s
	}
	onFull, onEmpty := mk(full), mk(empty)
	for _, op := range s04Ops() {
		for _, acct := range accts {
			for _, name := range names {
				for _, key := range keys {
					allowed := false
					for _, r := range rules {
						allowed = allowed || r.grants(op.need, acct, key, name)
					}
					req := op.req(&pb.AccountRef{Id: acct, ApiKey: key}, name)
					resp, err := safely(x, onFull, req)
					_, err2 := safely(x, onEmpty, req)
					x.C.Transition(2)
					who := fmt.Sprintf("%s on %q of account %q with key %q under %v", op.name, name, acct, key, pol.Policy)
					x.C.Eval(allowed, op.name, acct, name, key, allowed)
					if !allowed {
						x.Assert(err != nil && err2 != nil, "%s is not granted but was answered %v", who, world.Text(resp))
						x.Assert(world.Code(err) == codes.PermissionDenied && world.Code(err2) == codes.PermissionDenied, "%s is not granted, and failed with %v (%v when nothing is stored), not with PermissionDenied", who, err, err2)
						x.Assert(err.Error() == err2.Error(), "%s is not granted, but the error tells what is stored: %q or, when nothing is stored, %q", who, err, err2)
						x.Assert(full.Version == 0 && empty.Version == 0, "%s is not granted but changed what is stored", who)
						continue
					}
					if world.IsWrite(req) {
						x.Assert(err == nil && full.Version == 1, "%s is granted but failed: %v", who, err)
						*full, *empty = *e.full.Clone(), *(&world.Store{}).Clone()
						continue
					}
					k := op.name + "|" + acct + "|" + name
					x.Assert(err == nil == (e.wantErr[k] == nil), "%s is granted but answers %v, open access answers %v", who, err, e.wantErr[k])
					x.Assert(world.Code(err2) != codes.PermissionDenied, "%s is granted but denied when nothing is stored: %v", who, err2)
					x.Assert(world.Equal(resp, e.want[k]), "%s is granted but answers %v, open access answers %v", who, world.Text(resp), world.Text(e.want[k]))
				}
			}
		}
	}
	x.C.Trace(1)
}

func runS04(c *mck.C) {
	e := &s04Env{full: s04Fill(), want: map[string]proto.Message{}, wantErr: map[string]error{}}
	open := world.On(e.full.Clone(), policy.Open)
	for _, op := range s04Ops() {
		if op.need == never {
			continue
		}
		for _, a := range s04Accounts {
			for _, n := range s04Names {
				req := op.req(&pb.AccountRef{Id: a}, n)
				if world.IsWrite(req) {
					continue
				}
				k := op.name + "|" + a + "|" + n
				e.want[k], e.wantErr[k] = world.Call(open, req)
			}
		}
	}
	var perms [][]pb.Permission
	perms = append(perms, nil)
	for p := range pb.Permission_name {
		perms = append(perms, []pb.Permission{pb.Permission(p)})
	}
	sortPerms(perms[1:])
	nsingle := len(perms)
	perms = append(perms,
		[]pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY, pb.Permission_PERM_MAP_SET_VALUE},
		[]pb.Permission{pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_LOG_RAW_ADD, pb.Permission_PERM_MAP_MUTATION_READ_HASH})
	keys := []string{"k", "other", "", "*"}
	ruleKeys := []string{"*", "k", "", "other", "K", "k "}
	// One rule.
	c.Explore("rule", func(x *mck.X) {
		r := s04Rule{acct: "1", key: ruleKeys[x.Choose(len(ruleKeys), "key")], pat: x.Choose(len(s04Patterns), "pattern"), perm: perms[x.Choose(len(perms), "permissions")]}
		if x.Bool("account") {
			r.acct = ""
		}
		acc := []*pb.ResourceAccount{{Id: r.acct, Policy: []*pb.AccessPolicy{r.pb()}}}
		e.tryAll(x, []s04Rule{r}, acc, keys, s04Accounts, s04Names)
		x.C.State(fmt.Sprint(r))
		x.C.Sample("rule", "%v", acc)
	})
	// No rule at all.
	c.Explore("none", func(x *mck.X) {
		var acc []*pb.ResourceAccount
		if x.Bool("account without rules") {
			acc = []*pb.ResourceAccount{{Id: "1"}, {Id: ""}}
		}
		e.tryAll(x, nil, acc, keys, s04Accounts, s04Names)
		x.C.State("none", len(acc))
	})
	// Two rules: in one account's list, in two lists of one account, or in two accounts.
	var small []s04Rule
	for _, k := range []string{"*", "k"} {
		for _, p := range []int{1, 6, 0} {
			for i := 1; i < nsingle; i++ {
				small = append(small, s04Rule{acct: "1", key: k, pat: p, perm: perms[i]})
			}
		}
	}
	// A line that matches nothing, before or after one that grants.
	c.Explore("idle rule", func(x *mck.X) {
		idle := s04Rule{acct: "1", key: ruleKeys[x.Choose(len(ruleKeys), "key")], pat: x.Choose(len(s04Patterns), "pattern"), perm: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}
		r := s04Rule{acct: "1", key: []string{"*", "k"}[x.Choose(2, "granting key")], pat: x.Choose(2, "granting pattern"), perm: []pb.Permission{pb.Permission_PERM_ALL_PERMISSIONS}}
		rules := []s04Rule{idle, r}
		if x.Bool("after") {
			rules = []s04Rule{r, idle}
		}
		acc := []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{rules[0].pb(), rules[1].pb()}}}
		e.tryAll(x, rules, acc, keys, []string{"1"}, s04Names)
		x.C.State("idle", fmt.Sprint(rules))
	})
	shapes := 3
	c.Explore("rules", func(x *mck.X) {
		a := small[x.Choose(len(small), "first rule")]
		b := small[x.Choose(len(small), "second rule")]
		if x.C.Quick() && a.pat == 0 && b.pat == 0 {
			x.Prune()
		}
		var acc []*pb.ResourceAccount
		shape := x.Choose(shapes, "shape")
		switch shape {
		case 0:
			acc = []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{a.pb(), b.pb()}}}
		case 1:
			acc = []*pb.ResourceAccount{{Id: "1", Policy: []*pb.AccessPolicy{a.pb()}}, {Id: "1", Policy: []*pb.AccessPolicy{b.pb()}}}
		case 2:
			b.acct = "2"
			acc = []*pb.ResourceAccount{{Id: "2", Policy: []*pb.AccessPolicy{b.pb()}}, {Id: "1", Policy: []*pb.AccessPolicy{a.pb()}}}
		}
		accts := []string{"1"}
		if shape == 2 {
			accts = []string{"1", "2"}
		}
		e.tryAll(x, []s04Rule{a, b}, acc, []string{"k", "other"}, accts, []string{"obj", "other"})
		x.C.State(fmt.Sprint(a, b, shape))
	})
	runS04Pairs(c)
	runS04Alike(c)
}

// s04Question is one request as the policy sees it.
type s04Question struct {
	acct, key, name string
	op              int
}

// runS04Pairs asks one service two questions: the second answer must be what
// it is when nothing was asked before.
func runS04Pairs(c *mck.C) {
	accts := []string{"1", "2", "11"}
	keys := []string{"k1", "k2", "K1", "", "k1x-1"}
	names := []string{"x-1", "x-2", "x-11", "x", "X-1", "x-1 ", "1", "1x-1"}
	db := &world.Store{}
	open := world.On(db, policy.Open)
	for _, a := range accts {
		for _, n := range names {
			acc := &pb.AccountRef{Id: a}
			v, err := verifiable.CreateRedactableJSONLeafData([]byte(fmt.Sprintf(`{"f":%q,"g":%q}`, a, n)))
			must(err)
			_, err = open.LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: acc, Name: n}, Value: v})
			must(err)
			_, err = open.MapSetValue(ctx, &pb.MapSetValueRequest{Map: &pb.MapRef{Account: acc, Name: n}, Mutation: &pb.MapMutation{Action: "set", Key: []byte("k"), Value: v}})
			must(err)
		}
	}
	ops := []func(acc *pb.AccountRef, n string) proto.Message{
		func(acc *pb.AccountRef, n string) proto.Message {
			return &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: acc, Name: n}}
		},
		func(acc *pb.AccountRef, n string) proto.Message {
			return &pb.LogTreeHashRequest{Log: &pb.LogRef{Account: acc, Name: n}}
		},
		func(acc *pb.AccountRef, n string) proto.Message {
			return &pb.MapGetValueRequest{Map: &pb.MapRef{Account: acc, Name: n}, Key: []byte("k")}
		},
		func(acc *pb.AccountRef, n string) proto.Message {
			return &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: acc, Name: n, LogType: ltMut}}
		},
	}
	var qs []s04Question
	for _, a := range accts {
		for _, k := range keys {
			for _, n := range names {
				for op := range ops {
					qs = append(qs, s04Question{a, k, n, op})
				}
			}
		}
	}
	rule := func(key, name string, fields string, perms ...pb.Permission) *pb.AccessPolicy {
		return &pb.AccessPolicy{ApiKey: key, NameMatch: name, Permissions: perms, AllowedFields: []string{fields}}
	}
	all := pb.Permission_PERM_ALL_PERMISSIONS
	policies := [][]*pb.ResourceAccount{
		{{Id: "1", Policy: []*pb.AccessPolicy{rule("k1", "x-1", "*", all)}}},
		{{Id: "1", Policy: []*pb.AccessPolicy{rule("k1", "x-?", "f", pb.Permission_PERM_LOG_READ_ENTRY), rule("k2", "x-1", "*", all)}}, {Id: "2", Policy: []*pb.AccessPolicy{rule("k1", "x-1", "g", all)}}},
		{{Id: "1", Policy: []*pb.AccessPolicy{rule("*", "x-2", "f", pb.Permission_PERM_MAP_GET_VALUE), rule("*", "x-[12]*", "*", pb.Permission_PERM_LOG_READ_HASH), rule("*", "x*", "g", pb.Permission_PERM_MAP_MUTATION_READ_ENTRY)}}},
		{{Id: "11", Policy: []*pb.AccessPolicy{rule("k1", "x-1", "f", all), rule("k1x-1", "1", "*", all), rule("*", "1x-1", "g", pb.Permission_PERM_LOG_READ_ENTRY)}}, {Id: "1", Policy: []*pb.AccessPolicy{rule("k1", "1x-1", "f", all)}}},
	}
	type answer struct {
		resp proto.Message
		err  error
	}
	fresh := func(p int) world.Service {
		s, err := (&verifiable.Service{AccessPolicy: &policy.Static{Policy: policies[p]}, Reader: db, Mutator: &instant.Mutator{Writer: db}}).Create()
		must(err)
		return s
	}
	ask := func(s world.Service, q s04Question) answer {
		resp, err := world.Call(s, ops[q.op](&pb.AccountRef{Id: q.acct, ApiKey: q.key}, q.name))
		return answer{resp, err}
	}
	same := func(a, b answer) bool {
		if a.err != nil || b.err != nil {
			return a.err != nil && b.err != nil && world.Code(a.err) == world.Code(b.err)
		}
		return world.Equal(a.resp, b.resp)
	}
	alone := make([][]answer, len(policies))
	for p := range policies {
		for _, q := range qs {
			alone[p] = append(alone[p], ask(fresh(p), q))
		}
	}
	check := func(x *mck.X, p, i int, s world.Service, before interface{}) {
		got := ask(s, qs[i])
		x.C.Transition(1)
		if !same(got, alone[p][i]) {
			x.Failf("%+v, asked after %+v, is answered %v, %v; asked first it is answered %v, %v; the policy is %v", qs[i], before, world.Text(got.resp), got.err, world.Text(alone[p][i].resp), alone[p][i].err, policies[p])
		}
		x.C.Eval(got.err == nil, p, i)
	}
	c.Explore("two questions", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		i := x.Choose(len(qs), "first question")
		for j := range qs {
			if x.C.Quick() && qs[j].acct != qs[i].acct && qs[j].key != qs[i].key && qs[j].name != qs[i].name {
				continue
			}
			s := fresh(p)
			ask(s, qs[i])
			check(x, p, j, s, qs[i])
		}
		x.C.State("pair", p, i)
		x.C.Trace(1)
		x.C.Sample("two questions", "%v then every other", qs[i])
	})
	// One question while another is being answered: at every call it makes to
	// the policy or the storage.
	few := func(q s04Question) bool {
		return q.op != 1 && q.acct != "11" && (q.key == "k1" || q.key == "k2" || q.key == "") && (q.name == "x-1" || q.name == "x-2" || q.name == "x")
	}
	c.Explore("a question within another", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		i := x.Choose(len(qs), "outer question")
		if x.C.Quick() && !few(qs[i]) {
			x.Prune()
		}
		frozen := world.Freeze(db)
		pol := &s04Hook{under: &policy.Static{Policy: policies[p]}}
		s, err := (&verifiable.Service{AccessPolicy: pol, Reader: frozen, Mutator: &instant.Mutator{Writer: db}}).Create()
		must(err)
		n, stop, inner := 0, -1, 0
		var beside answer
		var ended <-chan struct{}
		at := func(string) {
			now := n == stop
			n++
			if now {
				ended = world.Beside(func() { beside = ask(s, qs[inner]) })
			}
		}
		pol.at, frozen.At = at, at
		check(x, p, i, s, "nothing")
		points := n
		for j := range qs {
			if x.C.Quick() && !few(qs[j]) {
				continue
			}
			for k := 0; k < points; k++ {
				n, stop, inner = 0, k, j
				check(x, p, i, s, fmt.Sprintf("and around %+v at its call %d", qs[j], k))
				<-ended
				x.C.Transition(1)
				if !same(beside, alone[p][j]) {
					x.Failf("%+v, asked during call %d of %+v, is answered %v, %v; asked alone it is answered %v, %v; the policy is %v", qs[j], k, qs[i], world.Text(beside.resp), beside.err, world.Text(alone[p][j].resp), alone[p][j].err, policies[p])
				}
			}
		}
		x.C.State("within", p, i)
		x.C.Trace(points)
		x.C.Eval(points > 2, "calls", points)
	})
	// All of them on one service, twice, in either order.
	c.Explore("all questions", func(x *mck.X) {
		p := x.Choose(len(policies), "policy")
		back := x.Bool("backwards")
		s := fresh(p)
		for round := 0; round < 2; round++ {
			for i := range qs {
				if back {
					i = len(qs) - 1 - i
				}
				check(x, p, i, s, "all before it")
			}
		}
		x.C.State("all", p, back)
		x.C.Trace(1)
	})
}

// s04Hook is a policy that says when it is asked.
type s04Hook struct {
	under verifiable.AuthorizationOracle
	at    func(op string)
}

// VerifyAllowed implements verifiable.AuthorizationOracle.
func (h *s04Hook) VerifyAllowed(ctx context.Context, account, key, name string, perm pb.Permission) (*verifiable.AccessModifier, error) {
	h.at("policy")
	m, err := h.under.VerifyAllowed(ctx, account, key, name, perm)
	h.at("policy answered")
	return m, err
}

// runS04Alike has rules and requests whose account, or whose key, are all
// strings of up to two characters of an alphabet.
func runS04Alike(c *mck.C) {
	var words []string
	letters := []string{"1", "a", "A", " ", "*", "?", ".", "\x00", "/", "é"}
	words = append(words, "")
	for _, a := range letters {
		words = append(words, a)
		for _, b := range letters {
			words = append(words, a+b)
		}
	}
	db := &world.Store{}
	for _, w := range words {
		_, err := world.On(db, policy.Open).LogAddEntry(ctx, &pb.LogAddEntryRequest{Log: &pb.LogRef{Account: &pb.AccountRef{Id: w}, Name: "n"}, Value: world.Leaf("in "+w, w)})
		must(err)
	}
	frozen := world.Freeze(db)
	c.Explore("alike", func(x *mck.X) {
		inRule := words[x.Choose(len(words), "in the rule")]
		key := x.Bool("key")
		rule := &pb.AccessPolicy{ApiKey: "*", NameMatch: "*", Permissions: []pb.Permission{pb.Permission_PERM_LOG_READ_ENTRY}, AllowedFields: []string{"*"}}
		acc := &pb.ResourceAccount{Id: inRule, Policy: []*pb.AccessPolicy{rule}}
		if key {
			rule.ApiKey, acc.Id = inRule, "1"
		}
		s, err := (&verifiable.Service{AccessPolicy: &policy.Static{Policy: []*pb.ResourceAccount{acc}}, Reader: frozen, Mutator: &instant.Mutator{Writer: db}}).Create()
		must(err)
		for _, asked := range words {
			as := &pb.AccountRef{Id: asked}
			want := asked == inRule
			if key {
				as = &pb.AccountRef{Id: "1", ApiKey: asked}
				want = inRule == "*" || asked == inRule && asked != ""
			}
			r, err := s.LogFetchEntries(ctx, &pb.LogFetchEntriesRequest{Log: &pb.LogRef{Account: as, Name: "n"}})
			x.C.Transition(1)
			if !want {
				x.Assert(world.Code(err) == codes.PermissionDenied, "account %q with key %q: %v, %v, but the rule is for account %q and key %q", as.Id, as.ApiKey, world.Text(r), err, acc.Id, rule.ApiKey)
				continue
			}
			x.Assert(err == nil, "account %q with key %q: %v, but there is a rule for account %q and key %q", as.Id, as.ApiKey, err, acc.Id, rule.ApiKey)
			x.Assert(len(r.Values) == 1 && string(r.Values[0].LeafInput) == "in "+as.Id, "account %q has %v", as.Id, world.Text(r))
		}
		x.C.State("alike", key, inRule)
		x.C.Trace(1)
		x.C.Eval(true, "alike", key)
	})
}

func sortPerms(l [][]pb.Permission) {
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j][0] < l[i][0] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
}
