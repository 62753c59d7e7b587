package vs

import (
	"reflect"
	"unsafe"
)

// the beginning of runtime.hchan
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func chanReady(p unsafe.Pointer) bool {
	h := (*hchan)(p)
	return h != nil && (h.qcount > 0 || h.closed != 0)
}

func (s *Sched) findOffer(ch unsafe.Pointer, g *G) *offer {
	if ch == nil {
		return nil
	}
	for _, o := range s.offers {
		if o != nil && o.ch == ch && !o.taken && o.g != g && (o.to == nil || o.to == g) {
			return o
		}
	}
	return nil
}

func (s *Sched) post(o *offer) {
	for i, x := range s.offers {
		if x == nil {
			s.offers[i] = o
			return
		}
	}
	panic("mck: too many offers")
}

func (s *Sched) withdraw(o *offer) {
	for i, x := range s.offers {
		if x == o {
			s.offers[i] = nil
		}
	}
}

func canRecv(s *Sched, g *G, ch unsafe.Pointer) bool {
	return chanReady(ch) || s.findOffer(ch, g) != nil
}

func canSend(ch unsafe.Pointer) bool {
	h := (*hchan)(ch)
	return h != nil && (h.closed != 0 || h.qcount < h.dataqsiz)
}

// receiver is a goroutine that waits to receive from ch.
func (s *Sched) receiver(ch unsafe.Pointer, not *G) *G {
	for i := 0; i < s.ng; i++ {
		g := s.gs[i]
		if g == not || g.done {
			continue
		}
		if w, ok := g.wait.(*selWait); ok && s.promised(g) == nil {
			for i := 0; i < w.n; i++ {
				if !w.send[i] && w.ch[i] == ch && ch != nil {
					return g
				}
			}
		}
	}
	return nil
}

func (s *Sched) promised(g *G) *offer {
	for _, o := range s.offers {
		if o != nil && o.to == g && !o.taken {
			return o
		}
	}
	return nil
}

// Case is one case of a select statement.
type Case interface {
	where() (ch unsafe.Pointer, send bool)
	now(s *Sched, g *G) // does it, it is ready
	offer(g *G) *offer  // for sends on unbuffered channels
	reflected() reflect.SelectCase
	got(v reflect.Value, ok bool)
}

// The cases are made by code of the program under control, which the race
// detector watches, so the scheduler must not look at them.
type selWait struct {
	s    *Sched
	g    *G
	n    int
	ch   [16]unsafe.Pointer
	send [16]bool
	offs [16]*offer
}

func (w *selWait) ready() bool {
	for i := 0; i < w.n; i++ {
		p, send := w.ch[i], w.send[i]
		if p == nil {
			continue
		}
		if send {
			if canSend(p) || (w.offs[i] != nil && w.offs[i].taken) {
				return true
			}
		} else if canRecv(w.s, w.g, p) {
			return true
		}
	}
	return false
}

// RC is a receiving case, and its result.
type RC[T any] struct {
	c  <-chan T
	V  T
	OK bool
}

// R makes a receiving case.
func R[T any](c <-chan T) *RC[T] { return &RC[T]{c: c} }

func (r *RC[T]) where() (unsafe.Pointer, bool) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)), false
}
func (r *RC[T]) offer(g *G) *offer { return nil }
func (r *RC[T]) reflected() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}
func (r *RC[T]) got(v reflect.Value, ok bool) {
	if v.IsValid() && v.CanInterface() {
		if x, is := v.Interface().(T); is {
			r.V = x
		}
	}
	r.OK = ok
}
func (r *RC[T]) now(s *Sched, g *G) {
	p, _ := r.where()
	if !chanReady(p) {
		if o := s.findOffer(p, g); o != nil {
			r.V, r.OK = <-o.take().(chan T), true
			o.done()
			return
		}
	}
	r.V, r.OK = <-r.c
}

//go:noinline
func (o *offer) done() { o.ack <- struct{}{} }

//go:noinline
func (o *offer) take() interface{} {
	o.taken = true
	return o.box
}

//go:noinline
func newOffer(p unsafe.Pointer, g *G, box interface{}) *offer {
	return &offer{ch: p, g: g, box: box, ack: make(chan struct{}, 1)}
}

// SC is a sending case.
type SC[T any] struct {
	c chan<- T
	v T
}

// S makes a sending case.
func S[T any](c chan<- T, v T) *SC[T] { return &SC[T]{c, v} }

func (r *SC[T]) where() (unsafe.Pointer, bool) { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)), true }
func (r *SC[T]) offer(g *G) *offer {
	p, _ := r.where()
	if p == nil || (*hchan)(p).dataqsiz > 0 {
		return nil
	}
	b := make(chan T, 1)
	b <- r.v
	return newOffer(p, g, b)
}
func (r *SC[T]) reflected() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.c), Send: reflect.ValueOf(&r.v).Elem()}
}
func (r *SC[T]) got(reflect.Value, bool) {}
func (r *SC[T]) now(s *Sched, g *G)      { r.c <- r.v }

// Select replaces a select statement. It returns -1 for the default case.
func Select(def bool, cases ...Case) int {
	g := cur()
	if g == nil || g.killed {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.reflected())
		}
		if def || g != nil {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].got(v, ok)
		return i
	}
	s := g.s
	g.nch = 0
	for _, c := range cases {
		if p, send := c.where(); !send && p != nil && g.nch < len(g.chans) {
			g.chans[g.nch] = p
			g.nch++
		}
	}
	defer func() { g.nch = 0 }()
	g.yield(nil, "channel operation")
	for {
		var en [16]int
		n := 0
		for i, c := range cases {
			p, send := c.where()
			if p == nil {
				continue
			}
			if send && canSend(p) || !send && canRecv(s, g, p) {
				en[n] = i
				n++
			} else if send && (*hchan)(p).dataqsiz == 0 && s.receiver(p, g) != nil {
				en[n] = i
				n++
			}
		}
		if o := s.promised(g); o != nil {
			n = 0
			for i, c := range cases {
				if p, send := c.where(); !send && p == o.ch {
					en[0], n = i, 1
				}
			}
		}
		if n > 0 {
			k := 0
			if n > 1 {
				k = g.ask(n)
			}
			i := en[k]
			p, send := cases[i].where()
			if send && !canSend(p) {
				o := cases[i].offer(g)
				o.to = s.receiver(p, g)
				s.post(o)
				g.yield(takenWait{o}, "handing over")
				s.withdraw(o)
				<-o.ack
				return i
			}
			cases[i].now(s, g)
			return i
		}
		if def {
			return -1
		}
		w := &selWait{s: s, g: g, n: len(cases)}
		for i, c := range cases {
			w.ch[i], w.send[i] = c.where()
			if o := c.offer(g); o != nil {
				w.offs[i] = o
				s.post(o)
			}
		}
		g.yield(w, "waiting for a channel")
		taken := -1
		for i, o := range w.offs {
			if o != nil {
				if o.taken {
					taken = i
				}
				s.withdraw(o)
			}
		}
		if taken >= 0 {
			<-w.offs[taken].ack
			return taken
		}
	}
}

type takenWait struct{ o *offer }

func (w takenWait) ready() bool { return w.o.taken }

// Send replaces c <- v.
func Send[T any](c chan<- T, v T) {
	if cur() == nil {
		c <- v
		return
	}
	Select(false, S(c, v))
}

// Recv replaces <-c.
func Recv[T any](c <-chan T) T {
	if cur() == nil {
		return <-c
	}
	r := R(c)
	Select(false, r)
	return r.V
}

// Recv2 replaces v, ok = <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if cur() == nil {
		v, ok := <-c
		return v, ok
	}
	r := R(c)
	Select(false, r)
	return r.V, r.OK
}

// Close replaces close(c).
func Close[T any](c chan<- T) {
	Point("close")
	close(c)
}

// Range replaces range over a channel.
func Range[T any](c <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
