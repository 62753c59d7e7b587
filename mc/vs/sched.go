// Package vs is a controlled scheduler: goroutines started under it run one at
// a time, and at every operation on a lock, channel or timer, and at every
// explicit point, the next one to run is chosen by the caller. The locks and
// channels that synchronise the goroutines are the real ones, and handing over
// is invisible to the race detector (this package is compiled without it), so
// that it sees the program's own synchronisation only.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

const (
	maxG     = 64
	maxTimer = 256
	maxOffer = 64
)

// readier is what a blocked goroutine waits for.
type readier interface{ ready() bool }

// G is a goroutine under control.
type G struct {
	_      [3]uintptr // reads as no profiler labels
	s      *Sched
	id     int
	name   string
	sem    uint32
	done   bool
	killed bool
	wait   readier
	desc   string
	chans  [8]unsafe.Pointer // channels it waits for
	nch    int
}

type timer struct {
	ch    chan time.Time
	f     func()
	d     time.Duration
	state int // 0 pending, 1 fired, 2 stopped
	at    time.Duration
	sleep bool
}

type offer struct {
	ch    unsafe.Pointer
	g     *G
	box   interface{} // chan T
	ack   chan struct{}
	taken bool
	to    *G // only for this one
}

// Sched schedules the goroutines of one execution.
type Sched struct {
	opt    Options
	sem    uint32
	gs     [maxG]*G
	ng     int
	timers [maxTimer]*timer
	nt     int
	offers [maxOffer]*offer
	idle   *G // waits until nothing else can happen
	fires  int
	asked  int
	answer int
	clock  time.Duration
	dead   bool
	last   *G
	offset time.Duration
	pre    int
	res    Result
	ends   sync.WaitGroup // lets the caller see what the goroutines did
}

// Options of an execution.
type Options struct {
	// Choose resolves scheduling choices.
	Choose func(n int, label string) int
	// Preemptions bounds the switches away from a goroutine that could go on,
	// and the timers that fire while some goroutine could go on.
	Preemptions int
	// Timely has timers fire in the order of their deadlines only.
	Timely bool
	// MaxSteps bounds the points passed.
	MaxSteps int
	// Trace is told every step.
	Trace func(string)
}

// Result of an execution.
type Result struct {
	// Fatal is the message with which the program ended itself.
	Fatal   string
	IsFatal bool
	// Panic is an unrecovered panic of a goroutine.
	Panic      interface{}
	PanicStack string
	// Blocked names the goroutines that did not finish.
	Blocked []string
	// Main says whether the main function finished.
	Main  bool
	Steps int
	// Stuck is set if there were too many steps.
	Stuck bool
}

func cur() *G {
	p := getLabel()
	if p == nil {
		return nil
	}
	return (*G)(p)
}

// Managed says whether the caller is under control.
func Managed() bool { return cur() != nil }

// Current is the scheduler of the caller, or nil.
func Current() *Sched {
	if g := cur(); g != nil {
		return g.s
	}
	return nil
}

// Step is the number of steps so far: a logical clock.
func Step() int {
	if g := cur(); g != nil {
		return g.s.res.Steps
	}
	return 0
}

func (g *G) yield(wait readier, desc string) {
	if g.killed {
		return
	}
	g.wait = wait
	g.desc = desc
	semrelease(&g.s.sem, false, 0)
	semacquire(&g.sem)
	g.wait = nil
	if g.killed {
		runtime.Goexit()
	}
}

// ask resolves a choice of the goroutine itself.
func (g *G) ask(n int) int {
	if g.killed {
		return 0
	}
	g.s.asked = n
	g.yield(nil, g.desc)
	return g.s.answer
}

// Point is a place where another goroutine may be chosen to go on.
func Point(desc string) {
	if g := cur(); g != nil {
		g.yield(nil, desc)
	}
}

// Name names the calling goroutine.
func Name(n string) {
	if g := cur(); g != nil {
		g.name = n
	}
}

// Go starts a goroutine.
func Go(f func()) {
	p := cur()
	if p == nil || p.killed {
		go f()
		return
	}
	p.s.spawn(f, "")
}

// GoNamed starts a goroutine.
func GoNamed(name string, f func()) {
	p := cur()
	if p == nil || p.killed {
		go f()
		return
	}
	p.s.spawn(f, name)
}

func (s *Sched) spawn(f func(), name string) *G {
	if s.ng == maxG {
		panic("mck: too many goroutines")
	}
	g := &G{s: s, id: s.ng, name: name, desc: "start"}
	if name == "" {
		g.name = fmt.Sprint("goroutine ", g.id)
	}
	s.gs[s.ng] = g
	s.ng++
	s.ends.Add(1)
	go g.run(f)
	return g
}

func (g *G) run(f func()) {
	setLabel(unsafe.Pointer(g))
	defer func() {
		if r := recover(); r != nil {
			if g.s.res.Panic == nil {
				g.s.res.Panic = r
				g.s.res.PanicStack = string(debug.Stack())
			}
			g.s.dead = true
		}
		g.done = true
		setLabel(nil)
		g.s.ends.Done()
		semrelease(&g.s.sem, false, 0)
	}()
	semacquire(&g.sem)
	if g.killed {
		return
	}
	f()
}

// Die ends the program, as far as it is under control.
func Die(msg string) {
	g := cur()
	if g.killed {
		runtime.Goexit()
	}
	g.s.res.Fatal = msg
	g.s.res.IsFatal = true
	g.s.dead = true
	runtime.Goexit()
}

// Run runs f, and all the goroutines it starts, until none can go on.
func Run(opt Options, f func()) *Result {
	s := &Sched{opt: opt, pre: opt.Preemptions}
	if s.opt.MaxSteps == 0 {
		s.opt.MaxSteps = 100000
	}
	m := s.spawn(f, "main")
	for !s.dead {
		if s.res.Steps >= s.opt.MaxSteps {
			s.res.Stuck = true
			break
		}
		if !s.step() {
			break
		}
	}
	s.res.Main = m.done && !s.dead
	for i := 0; i < s.ng; i++ {
		if g := s.gs[i]; !g.done {
			s.res.Blocked = append(s.res.Blocked, g.name+": "+g.desc)
		}
	}
	for i := 0; i < s.ng; i++ {
		if g := s.gs[i]; !g.done {
			g.killed = true
			semrelease(&g.sem, false, 0)
			semacquire(&s.sem)
		}
	}
	s.ends.Wait()
	return &s.res
}

// step lets one goroutine go on, or fires a timer.
func (s *Sched) step() bool {
	if s.asked > 0 {
		n := s.asked
		s.asked = 0
		s.answer = s.opt.Choose(n, "select")
		semrelease(&s.last.sem, false, 0)
		semacquire(&s.sem)
		return true
	}
	var en [maxG]*G
	n := 0
	curOK := false
	for i := 0; i < s.ng; i++ {
		g := s.gs[i]
		if g.done {
			continue
		}
		if g == s.idle {
			continue
		}
		if g.wait == nil || g.wait.ready() {
			if g == s.last {
				curOK = true
				copy(en[1:n+1], en[:n])
				en[0] = g
			} else {
				en[n] = g
			}
			n++
		}
	}
	var tm [maxTimer]*timer
	nt := 0
	for i := 0; i < s.nt; i++ {
		t := s.timers[i]
		if t.state != 0 {
			continue
		}
		if t.ch != nil && !s.wanted(t.ch) {
			continue
		}
		if s.opt.Timely && nt > 0 {
			if t.at > tm[0].at {
				continue
			}
			if t.at < tm[0].at {
				nt = 0
			}
		}
		tm[nt] = t
		nt++
	}
	if n == 0 && s.idle != nil && (nt == 0 || s.fires >= 40) {
		en[0], n, nt = s.idle, 1, 0
	}
	k := 0
	switch {
	case n == 0 && nt == 0:
		return false
	case curOK && s.pre <= 0, n == 1 && (nt == 0 || s.pre <= 0):
		k = 0
	case n == 0:
		if nt > 1 {
			k = s.opt.Choose(nt, "timer")
		}
	default:
		m := n
		if s.pre > 0 {
			m += nt
		}
		if m > 1 {
			k = s.opt.Choose(m, "schedule")
		}
	}
	if k >= n {
		t := tm[k-n]
		if n > 0 {
			s.pre--
		}
		if s.opt.Trace != nil {
			s.opt.Trace("timer fires")
		}
		s.fire(t)
		return true
	}
	if k > 0 && curOK {
		s.pre--
	}
	g := en[k]
	s.last = g
	s.res.Steps++
	if s.opt.Trace != nil {
		s.opt.Trace(g.name + ": " + g.desc)
	}
	semrelease(&g.sem, false, 0)
	semacquire(&s.sem)
	return true
}

func (s *Sched) wanted(ch chan time.Time) bool {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	for i := 0; i < s.ng; i++ {
		g := s.gs[i]
		if g.done {
			continue
		}
		for j := 0; j < g.nch; j++ {
			if g.chans[j] == p {
				return true
			}
		}
	}
	return false
}

func (s *Sched) fire(t *timer) {
	t.state = 1
	s.fires++
	if !s.opt.Timely {
		s.offset += t.d
	} else if t.at > s.offset {
		s.offset = t.at
	}
	if t.ch != nil {
		select {
		case t.ch <- s.now():
		default:
		}
	}
	if t.f != nil {
		s.spawn(t.f, "timer")
	}
}

// now is a clock that advances by itself and with every timer that fires, the
// same in every execution with the same choices.
func (s *Sched) now() time.Time {
	s.clock += time.Microsecond
	return start.Add(s.clock + s.offset)
}

var start = time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)

// Idle blocks the caller until no other goroutine can go on, except by many
// more timeouts.
func Idle() {
	g := cur()
	g.s.idle = g
	g.s.fires = 0
	g.yield(nil, "waiting until nothing happens")
	g.s.idle = nil
}

func (s *Sched) addTimer(t *timer) *timer {
	t.at = s.offset + t.d
	// reuse the place of a timer that is over
	for i := 0; i < s.nt; i++ {
		if s.timers[i].state != 0 || (s.timers[i].ch != nil && s.nt == maxTimer && !s.wanted(s.timers[i].ch)) {
			s.timers[i] = t
			return t
		}
	}
	if s.nt == maxTimer {
		panic("mck: too many timers")
	}
	s.timers[s.nt] = t
	s.nt++
	return t
}

type external struct {
	r interface{ Ready() bool }
}

func (e external) ready() bool { return e.r.Ready() }

// Wait blocks the caller until r is ready.
func Wait(r interface{ Ready() bool }, desc string) {
	g := cur()
	if g == nil {
		for !r.Ready() {
			time.Sleep(time.Millisecond)
		}
		return
	}
	for !r.Ready() {
		if g.killed {
			runtime.Goexit()
		}
		g.yield(external{r}, desc)
	}
}
