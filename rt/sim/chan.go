package sim

import (
	"unsafe"
)

// Channels keep their Go type; buffered ones use the real buffer (only the
// running task touches it, without blocking), unbuffered ones rendezvous here.
type chanState struct {
	keep   any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	vc     VC // released by senders and closers
	rvc    VC // released by receivers
}

type waiter struct {
	task *Task
	sel  *selState // shared by the cases of one select
	idx  int
	val  any    // value of a pending unbuffered send
	put  func() // performs a pending buffered send
}

type selState struct {
	fired bool
	idx   int
	val   any
	ok    bool
}

func chanOf[C any](ch C) (*chanState, unsafe.Pointer) {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return nil, nil
	}
	s := S
	if s.chans == nil {
		s.chans = map[unsafe.Pointer]*chanState{}
	}
	st := s.chans[p]
	if st == nil {
		st = &chanState{keep: ch}
		s.chans[p] = st
	}
	return st, p
}

// Case is one case of a select statement.
type Case struct {
	st     *chanState
	isSend bool
	val    any
	tryRcv func() (any, bool, bool) // value, ok, success: real channel
	trySnd func() bool
	full   func() bool
	avail  func() bool // a receive would not block; consumes nothing
	unbuf  bool
}

// CRecv builds a receive case.
func CRecv[T any](ch <-chan T) Case {
	c := Case{}
	if ch == nil || S == nil {
		return c
	}
	c.st, _ = chanOf(ch)
	c.unbuf = cap(ch) == 0
	c.tryRcv = func() (any, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
	c.avail = func() bool {
		if len(ch) > 0 {
			return true
		}
		select {
		case <-ch: // empty, so closed
			return true
		default:
			return false
		}
	}
	return c
}

// CSendRef lets the value be assigned with the channel's element type.
type CSendRef[T any] struct{ ch chan<- T }

func CSend[T any](ch chan<- T) CSendRef[T] { return CSendRef[T]{ch} }

func (r CSendRef[T]) Val(v T) Case {
	c := Case{isSend: true, val: v}
	ch := r.ch
	if ch == nil || S == nil {
		return c
	}
	c.st, _ = chanOf(ch)
	c.unbuf = cap(ch) == 0
	c.trySnd = func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	c.full = func() bool { return len(ch) == cap(ch) }
	return c
}

func pop(q *[]*waiter, self *selState) *waiter {
	for i := 0; i < len(*q); i++ {
		w := (*q)[i]
		if w.sel.fired {
			*q = append((*q)[:i], (*q)[i+1:]...)
			i--
			continue
		}
		if w.sel == self {
			continue
		}
		*q = append((*q)[:i], (*q)[i+1:]...)
		return w
	}
	return nil
}

func peek(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

// try attempts case c for a select that is not yet queued.
func (c *Case) try() (v any, ok, done bool) {
	if c.st == nil {
		return nil, false, false
	}
	if c.isSend {
		if c.st.closed {
			panic("send on closed channel")
		}
		if w := pop(&c.st.recvq, nil); w != nil {
			w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, c.val, true
			Release(&c.st.vc)
			Acquire(&c.st.rvc)
			return nil, false, true
		}
		if !c.unbuf && c.trySnd() {
			Release(&c.st.vc)
			Acquire(&c.st.rvc)
			return nil, false, true
		}
		return nil, false, false
	}
	if v, ok, done := c.tryRcv(); done { // buffered value or closed
		if ok && !c.unbuf {
			// room for a queued sender
			if w := pop(&c.st.sendq, nil); w != nil {
				// the sender completes by putting its value in the buffer
				w.sel.fired, w.sel.idx = true, w.idx
				w.put()
			}
		}
		Acquire(&c.st.vc)
		Release(&c.st.rvc)
		return v, ok, true
	}
	if w := pop(&c.st.sendq, nil); w != nil {
		w.sel.fired, w.sel.idx = true, w.idx
		Acquire(&c.st.vc)
		Release(&c.st.rvc)
		return w.val, true, true
	}
	return nil, false, false
}

// Select runs a select statement: index of the case, received value, ok.
func Select(hasDefault bool, cases ...Case) (int, any, bool) {
	s := S
	if s == nil {
		panic("sim: select outside a simulation")
	}
	if s.cur.dying {
		return -1, nil, false
	}
	Point("select")
	// which cases can proceed now: try them in a chosen order
	n := len(cases)
	start := 0
	if n > 1 {
		s.cur.step++
		if s.fair {
			start = s.steps % n
		} else if s.opt.Replay {
			if v, ok := s.replayed(KSelect); ok {
				s.record(KSelect, v)
				start = int(v) % n
			}
		} else if start = s.rng.Intn(n); start != 0 {
			s.record(KSelect, int64(start))
		}
		s.Stats.Selects++
	}
	for i := 0; i < n; i++ {
		j := (start + i) % n
		if v, ok, done := cases[j].try(); done {
			return j, v, ok
		}
	}
	if hasDefault {
		return -1, nil, false
	}
	// queue on every channel
	sel := &selState{}
	for i := range cases {
		c := &cases[i]
		if c.st == nil {
			continue
		}
		w := &waiter{task: s.cur, sel: sel, idx: i}
		if c.isSend {
			if c.unbuf {
				w.val = c.val
			} else {
				cc := c
				w.put = func() { cc.trySnd() }
			}
			c.st.sendq = append(c.st.sendq, w)
			Release(&c.st.vc)
		} else {
			c.st.recvq = append(c.st.recvq, w)
			Release(&c.st.rvc)
		}
	}
	Block("channel", func() bool { // must not change anything: it may be evaluated any number of times
		if sel.fired {
			return true
		}
		for i := range cases { // closed meanwhile, or fed from outside the queues
			c := &cases[i]
			if c.st == nil {
				continue
			}
			if c.isSend {
				if c.st.closed || !c.unbuf && !c.full() {
					return true
				}
				continue
			}
			if c.avail() {
				return true
			}
		}
		return false
	})
	if sel.fired {
		c := &cases[sel.idx]
		if c.isSend {
			Acquire(&c.st.rvc)
			return sel.idx, nil, false
		}
		Acquire(&c.st.vc)
		return sel.idx, sel.val, sel.ok
	}
	if s.cur.dying {
		return -1, nil, false
	}
	sel.fired = true // leave the queues
	for i := range cases {
		if v, ok, done := cases[i].try(); done {
			return i, v, ok
		}
	}
	return Select(hasDefault, cases...)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if S == nil {
		v, ok = <-ch
		return
	}
	_, x, ok := Select(false, CRecv(ch))
	if x != nil {
		v = x.(T)
	}
	return v, ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// As converts a received value in a select case.
func As[T any](ch <-chan T, x any) (v T) {
	if x != nil {
		v = x.(T)
	}
	return
}

// SRef is the target of a send statement.
type SRef[T any] struct{ ch chan<- T }

func To[T any](ch chan<- T) SRef[T] { return SRef[T]{ch} }

func (r SRef[T]) Send(v T) {
	if S == nil {
		r.ch <- v
		return
	}
	Select(false, CSend(r.ch).Val(v))
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if S == nil {
		close(ch)
		return
	}
	if S.cur.dying {
		return
	}
	Point("close")
	st, _ := chanOf(ch)
	close(ch)
	if st != nil {
		st.closed = true
		Release(&st.vc)
	}
}
