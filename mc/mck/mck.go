// Package mck is the exploration framework shared by the checks: stateless,
// exhaustive depth-first enumeration of every choice sequence of a body that
// drives the real code, with replay, evidence and supervision.
package mck

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID          string
	Level       string // model_checking (default) or fault_enumeration
	Rule        string
	Assumptions []string
	// Budget is the wall-clock budget of the exploration, after which it stops
	// early and reports exhaustive: false.
	Budget, ThoroughBudget time.Duration
	// MaxRun is how long one execution may take before it counts as a hang.
	MaxRun time.Duration
	// Serial runs one execution at a time.
	Serial bool
	Run    func(c *C)
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(ch Check) {
	if ch.Level == "" {
		ch.Level = "model_checking"
	}
	if ch.Budget == 0 {
		ch.Budget = 150 * time.Second
	}
	if ch.ThoroughBudget == 0 {
		ch.ThoroughBudget = 700 * time.Second
	}
	if ch.MaxRun == 0 {
		ch.MaxRun = 90 * time.Second
	}
	registry[ch.ID] = &ch
}

type violation struct {
	Explore string   `json:"explore"`
	Choices []int    `json:"choices"`
	Labels  []string `json:"labels"`
	Log     []string `json:"log"`
	Msg     string   `json:"message"`
	Stack   string   `json:"stack,omitempty"`
}

// C is the context of one check run.
type C struct {
	Check *Check
	Tier  string
	Seed  int

	start, deadline time.Time
	mu              sync.Mutex
	states          [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	nstates     atomic.Int64
	transitions atomic.Int64
	traces      atomic.Int64
	evals       atomic.Int64
	nontrivial  [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	nnontrivial atomic.Int64
	samples     []string
	sampleKeys  map[string]int
	notes       map[string]interface{}
	exhaustive  atomic.Bool
	stop        atomic.Bool
	viol        *violation
	known       map[string]string
	knownSeen   map[string]bool
	replay      *violation
	explored    map[string]int64
	inflight    sync.Map
}

// Quick says whether this is the quick tier.
func (c *C) Quick() bool { return c.Tier != "thorough" }

// Pick returns q in the quick tier, and t in the thorough one.
func (c *C) Pick(q, t int) int {
	if c.Quick() {
		return q
	}
	return t
}

func hash64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// State records a (distinct) state of the system or model.
func (c *C) State(parts ...interface{}) {
	v := hash64(parts...)
	s := &c.states[v&63]
	s.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	if _, ok := s.m[v]; !ok {
		s.m[v] = struct{}{}
		c.nstates.Add(1)
	}
	s.Unlock()
}

// Eval counts one evaluated case, named by its parts.
func (c *C) Eval(nontrivial bool, parts ...interface{}) {
	c.evals.Add(1)
	if !nontrivial {
		return
	}
	v := hash64(parts...)
	s := &c.nontrivial[v&63]
	s.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	if _, ok := s.m[v]; !ok {
		s.m[v] = struct{}{}
		c.nnontrivial.Add(1)
	}
	s.Unlock()
}

// Transition counts executed transitions (operations or steps).
func (c *C) Transition(n int) { c.transitions.Add(int64(n)) }

// Trace counts model traces compared with the implementation.
func (c *C) Trace(n int) { c.traces.Add(int64(n)) }

// Note puts an extra number into the evidence file.
func (c *C) Note(k string, v interface{}) {
	c.mu.Lock()
	c.notes[k] = v
	c.mu.Unlock()
}

// Sample records an example case (a few per kind).
func (c *C) Sample(kind, format string, args ...interface{}) {
	c.mu.Lock()
	if c.sampleKeys[kind] < 2 && len(c.samples) < 40 {
		c.sampleKeys[kind]++
		c.samples = append(c.samples, kind+": "+fmt.Sprintf(format, args...))
	}
	c.mu.Unlock()
}

// NotExhaustive records that part of the stated space was not covered.
func (c *C) NotExhaustive() { c.exhaustive.Store(false) }

// Expired says whether the budget is used up.
func (c *C) Expired() bool { return c.stop.Load() || time.Now().After(c.deadline) }

// X is one execution: a sequence of choices.
type X struct {
	C       *C
	name    string
	prefix  []int
	pos     int
	arity   []int
	taken   []int
	labels  []string
	log     []string
	started time.Time
	cleanup []func()
	quiet   bool
}

type failure struct{ msg string }

// prune abandons an execution that is equivalent to others explored.
type prune struct{}

// Choose returns a value in [0,n); every value is explored.
func (x *X) Choose(n int, label string) int {
	if n <= 0 {
		panic("mck: Choose with no alternatives: " + label)
	}
	v := 0
	if x.pos < len(x.prefix) {
		v = x.prefix[x.pos]
		if v >= n {
			panic(fmt.Sprintf("mck: replay divergence at choice %d (%s): %d of %d; taken %v", x.pos, label, v, n, x.taken))
		}
	}
	x.pos++
	x.arity = append(x.arity, n)
	x.taken = append(x.taken, v)
	x.labels = append(x.labels, label)
	return v
}

// Bool is a binary choice.
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

// Range returns a value in [lo,hi].
func (x *X) Range(lo, hi int, label string) int { return lo + x.Choose(hi-lo+1, label) }

// Logf appends to the execution's trace, which goes into the replay file.
func (x *X) Logf(format string, args ...interface{}) {
	if len(x.log) < 4000 {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Trace returns the log of this execution, on one line.
func (x *X) TraceString() string { return strings.Join(x.log, "; ") }

// Prune abandons this execution.
func (x *X) Prune() { panic(prune{}) }

// Defer runs f when the execution ends.
func (x *X) Defer(f func()) { x.cleanup = append(x.cleanup, f) }

// Failf reports a violation and ends the execution.
func (x *X) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Assert reports a violation unless ok.
func (x *X) Assert(ok bool, format string, args ...interface{}) {
	if !ok {
		x.Failf(format, args...)
	}
}

// Known reports a violation, unless the known-findings file lists key.
func (x *X) Known(key, format string, args ...interface{}) {
	if _, ok := x.C.known[key]; ok {
		x.C.mu.Lock()
		x.C.knownSeen[key] = true
		x.C.mu.Unlock()
		return
	}
	x.Failf("%s [finding key %s]", fmt.Sprintf(format, args...), key)
}

// RepoMark is what stack frames of the code under test contain.
const RepoMark = "continusec/verifiabledatastructures/"

func (c *C) runOne(name string, prefix []int, body func(x *X)) (x *X, v *violation) {
	x = &X{C: c, name: name, prefix: prefix, started: time.Now()}
	c.inflight.Store(x, time.Now())
	defer c.inflight.Delete(x)
	defer func() {
		for i := len(x.cleanup) - 1; i >= 0; i-- {
			x.cleanup[i]()
		}
		if v == nil {
			if rep := raceReport(); rep != "" {
				v = &violation{Explore: name, Choices: x.taken, Labels: x.labels, Log: x.log, Msg: "data race in this or a concurrently explored execution", Stack: rep}
			}
		}
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch f := r.(type) {
		case prune:
			return
		case failure:
			v = &violation{Explore: name, Choices: x.taken, Labels: x.labels, Log: x.log, Msg: f.msg}
		default:
			st := string(debug.Stack())
			if strings.HasPrefix(fmt.Sprint(r), "mck:") {
				fmt.Fprintf(os.Stderr, "mck: harness panic: %v\n%s\nchoices %v\n%s\n", r, st, x.taken, x.TraceString())
				os.Exit(2)
			}
			v = &violation{Explore: name, Choices: x.taken, Labels: x.labels, Log: x.log, Msg: fmt.Sprintf("panic while driving the code under test: %v", r), Stack: st}
		}
	}()
	body(x)
	return
}

// PanicInRepo says whether a stack trace has a frame of the code under test.
func PanicInRepo(stack string) bool {
	return strings.Contains(stack, RepoMark)
}

// Explore runs body once for every possible sequence of choices.
func (c *C) Explore(name string, body func(x *X)) { c.explore(name, body, c.Check.Serial) }

// ExploreSerial is Explore with one execution at a time.
func (c *C) ExploreSerial(name string, body func(x *X)) { c.explore(name, body, true) }

func (c *C) explore(name string, body func(x *X), serial bool) {
	if c.stop.Load() {
		return
	}
	if p := os.Getenv("VERIF_TIMES"); p != "" {
		began := time.Now()
		defer func() {
			if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%6.1fs %s\n", time.Since(began).Seconds(), name)
				f.Close()
			}
		}()
	}
	if c.replay != nil {
		if c.replay.Explore != name {
			return
		}
		x, v := c.runOne(name, c.replay.Choices, body)
		fmt.Println(strings.Join(x.log, "\n"))
		if v != nil {
			c.setViolation(v)
		}
		return
	}
	nw := runtime.NumCPU()
	if serial {
		nw = 1
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	active := 0
	var runs int64
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !c.stop.Load() {
					cond.Wait()
				}
				if len(stack) == 0 || c.stop.Load() {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(c.deadline) {
					c.NotExhaustive()
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()
				x, v := c.runOne(name, p, body)
				if v != nil {
					c.setViolation(v)
				}
				mu.Lock()
				active--
				runs++
				for i := len(p); i < len(x.taken); i++ {
					for a := x.arity[i] - 1; a >= 1; a-- {
						np := make([]int, i+1)
						copy(np, x.taken[:i])
						np[i] = a
						stack = append(stack, np)
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	c.mu.Lock()
	c.explored[name] += runs
	c.mu.Unlock()
}

func (c *C) setViolation(v *violation) {
	c.mu.Lock()
	if c.viol == nil {
		c.viol = v
	}
	c.mu.Unlock()
	c.stop.Store(true)
}

func (c *C) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		c.inflight.Range(func(k, v interface{}) bool {
			if time.Since(v.(time.Time)) > c.Check.MaxRun {
				c.mu.Lock()
				if c.viol != nil { // it has been found already, whatever else it does
					os.Exit(c.report())
				}
				c.mu.Unlock()
				buf := make([]byte, 4<<20)
				buf = buf[:runtime.Stack(buf, true)]
				x := k.(*X)
				fmt.Fprintf(os.Stderr, "mck: HANG in %s choices %v\n%s\n%s\n", x.name, x.taken, strings.Join(x.log, "\n"), buf)
				os.Exit(97)
			}
			return true
		})
	}
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func (c *C) writeEvidence(viols int) {
	cov := map[string]interface{}{
		"states":                        c.nstates.Load(),
		"transitions":                   c.transitions.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"samples":                       c.samples,
		"exhaustive":                    c.exhaustive.Load(),
		"executions_by_exploration":     c.explored,
	}
	if c.evals.Load() > 0 || c.Check.Level == "fault_enumeration" {
		cov["evaluations"] = c.evals.Load()
		cov["distinct_nontrivial"] = c.nnontrivial.Load()
	}
	if c.Check.Rule != "" {
		cov["rule"] = c.Check.Rule
	}
	for k, v := range c.notes {
		cov[k] = v
	}
	tier := "quick"
	if !c.Quick() {
		tier = "thorough"
	}
	ev := map[string]interface{}{
		"property": c.Check.ID, "tier": tier, "seed": c.Seed, "level": c.Check.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": viols,
		"assumptions": append([]string{}, c.Check.Assumptions...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := evidenceDir()
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.Check.ID+".json"), append(b, '\n'), 0o644)
}

func evidenceDir() string {
	if d := os.Getenv("VERIF_EVIDENCE"); d != "" {
		return d
	}
	return filepath.Join(root(), "evidence")
}

func loadKnown(id string) map[string]string {
	rv := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root(), "known-findings.txt"))
	if err != nil {
		return rv
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" ")
		if !strings.HasPrefix(rest, "key=") {
			continue
		}
		kv := strings.SplitN(strings.TrimPrefix(rest, "key="), " ", 2)
		d := ""
		if len(kv) == 2 {
			d = kv[1]
		}
		rv[kv[0]] = d
	}
	return rv
}

func newC(ch *Check, tier string, seed int) *C {
	c := &C{Check: ch, Tier: tier, Seed: seed, start: time.Now(), sampleKeys: map[string]int{}, notes: map[string]interface{}{},
		explored: map[string]int64{}, known: loadKnown(ch.ID), knownSeen: map[string]bool{}}
	b := ch.Budget
	if tier == "thorough" {
		b = ch.ThoroughBudget
	}
	c.deadline = c.start.Add(b)
	c.exhaustive.Store(true)
	return c
}

func replayPath(id string) string {
	return filepath.Join(evidenceDir(), "replay-"+id+".json")
}

func worker(ch *Check, tier string, seed int, replayFile string) int {
	c := newC(ch, tier, seed)
	if replayFile != "" {
		b, err := os.ReadFile(replayFile)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		c.replay = &violation{}
		if err := json.Unmarshal(b, c.replay); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	go c.watchdog()
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ch.Run(c)
	if c.viol != nil {
		return c.report()
	}
	var keys []string
	for k := range c.knownSeen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", ch.ID, k, c.known[k])
	}
	if c.replay == nil {
		c.writeEvidence(0)
		fmt.Printf("%s: held on everything explored: %d executions, %d states, %d transitions, exhaustive=%v, %.1fs\n", ch.ID, c.total(), c.nstates.Load(), c.transitions.Load(), c.exhaustive.Load(), time.Since(c.start).Seconds())
	}
	return 0
}

// report says what the violation is, and gives the exit status.
func (c *C) report() int {
	b, _ := json.MarshalIndent(c.viol, "", " ")
	p := replayPath(c.Check.ID)
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, append(b, '\n'), 0o644)
	if c.replay == nil {
		c.writeEvidence(1)
	}
	fmt.Printf("%s: %s\n", c.Check.ID, c.viol.Msg)
	for _, l := range tail(c.viol.Log, 30) {
		fmt.Println("  " + l)
	}
	if c.viol.Stack != "" {
		fmt.Println(c.viol.Stack)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Check.ID, p)
	return 1
}

func (c *C) total() (n int64) {
	for _, v := range c.explored {
		n += v
	}
	return
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Main is the entry point of a check binary.
func Main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	isWorker := flag.Bool("worker", false, "internal")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ch := registry[*id]
	if ch == nil {
		fmt.Println("unknown property", *id)
		os.Exit(2)
	}
	if *isWorker {
		debug.SetGCPercent(300)
		log.SetOutput(io.Discard)
		os.Exit(worker(ch, *tier, seed, *replay))
	}
	args := []string{"-worker", "-id", *id, "-tier", *tier}
	if *replay != "" {
		args = append(args, "-replay", *replay)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	var errb, outb bytes.Buffer
	if RaceDetector {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 log_path="+filepath.Join(os.Getenv("VERIF_SCRATCH"), "race"))
	}
	// The worker ends with its supervisor, should that be killed.
	runtime.LockOSThread()
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdout = &outb
	cmd.Stderr = &errb
	start := time.Now()
	err := cmd.Start()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hard := ch.Budget
	if *tier == "thorough" {
		hard = ch.ThoroughBudget
	}
	hard += ch.MaxRun + 30*time.Second
	select {
	case err = <-done:
	case <-time.After(hard):
		cmd.Process.Kill()
		err = <-done
		fmt.Fprintln(&errb, "supervisor: worker killed after", hard)
	}
	os.Stdout.Write(outb.Bytes())
	code := cmd.ProcessState.ExitCode()
	out := outb.String()
	if code == 0 && err == nil {
		os.Exit(0)
	}
	if code == 1 && strings.Contains(out, "VIOLATION property="+*id) {
		os.Exit(1)
	}
	es := errb.String()
	fmt.Print(diagnosis(es, 12000))
	repoFault := false
	switch {
	case strings.Contains(es, "mck: harness panic"), strings.Contains(es, "panic: mck:"):
	case strings.Contains(es, "mck: HANG"):
		repoFault = PanicInRepo(es)
	case strings.Contains(es, "panic: ") || strings.Contains(es, "fatal error: "):
		repoFault = PanicInRepo(es)
	case code == 1:
		// the process exited with status 1 without the harness asking for it
		repoFault = true
	}
	if !repoFault {
		os.Exit(2)
	}
	p := replayPath(*id)
	b, _ := json.MarshalIndent(&violation{Explore: "process", Msg: "the process executing the code under test died or hung", Stack: diagnosis(es, 60000)}, "", " ")
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, append(b, '\n'), 0o644)
	c := newC(ch, *tier, seed)
	c.start = start
	c.NotExhaustive()
	c.Sample("crash", "the worker process died: %s", diagnosis(es, 2000))
	c.evals.Add(1)
	c.writeEvidence(1)
	fmt.Printf("%s: the process executing the code under test died or hung\n", *id)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *id, p)
	os.Exit(1)
}

// diagnosis is the part of what a dying process printed that says why.
func diagnosis(es string, n int) string {
	at := -1
	for _, m := range []string{"panic: ", "fatal error: ", "unexpected fault address", "SIGSEGV", "SIGBUS", "mck: HANG"} {
		if i := strings.Index(es, m); i >= 0 && (at < 0 || i < at) {
			at = i
		}
	}
	if at < 0 {
		return lastBytes(es, n)
	}
	es = es[at:]
	if len(es) > n {
		es = es[:n] + "\n..."
	}
	return es
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}
