package simrt

import (
	"fmt"
	"iter"
	"unsafe"
)

type selState struct {
	fired  bool
	idx    int
	ok     bool
	closed bool // a sender was woken by close
	got    any  // *T for a receiver
}

type waiter struct {
	t    *Task
	sel  *selState
	idx  int
	val  any         // sender: *T
	push func() bool // sender: put the value into the real buffer
}

type chanState struct {
	recvq, sendq []*waiter
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired && w.t.state != tsDone {
			return w
		}
	}
	return nil
}

func key[T any](ch <-chan T) unsafe.Pointer  { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func skey[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sim) chst(k unsafe.Pointer, mk bool) *chanState {
	st := s.chans[k]
	if st == nil && mk {
		st = &chanState{}
		s.chans[k] = st
	}
	return st
}

func tryRecv[T any](s *Sim, ch <-chan T) (v T, ok, done bool) {
	if ch == nil {
		return
	}
	select {
	case v, ok = <-ch:
		done = true
	default:
	}
	st := s.chst(key(ch), false)
	if done {
		if ok && st != nil {
			if w := pop(&st.sendq); w != nil { // a slot got free
				w.push()
				w.sel.fired, w.sel.idx = true, w.idx
				s.ready(w.t)
			}
		}
		return
	}
	if st != nil {
		if w := pop(&st.sendq); w != nil {
			v, ok, done = *(w.val.(*T)), true, true
			w.sel.fired, w.sel.idx = true, w.idx
			s.ready(w.t)
		}
	}
	return
}

func trySend[T any](s *Sim, ch chan<- T, v T) (done bool) {
	if ch == nil {
		return
	}
	if st := s.chst(skey(ch), false); st != nil {
		if w := pop(&st.recvq); w != nil {
			vv := v
			w.sel.fired, w.sel.idx, w.sel.ok, w.sel.got = true, w.idx, true, &vv
			s.ready(w.t)
			return true
		}
	}
	select {
	case ch <- v:
		done = true
	default:
	}
	return
}

// TrySend never blocks (for the shims and timers).
func TrySend[T any](ch chan<- T, v T) bool { return trySend(cur, ch, v) }

// Drain removes a buffered value.
func Drain[T any](ch <-chan T) {
	select {
	case <-ch:
	default:
	}
}

func enqRecv[T any](s *Sim, ch <-chan T, sel *selState, idx int) {
	if ch == nil {
		return
	}
	st := s.chst(key(ch), true)
	st.recvq = append(st.recvq, &waiter{t: s.cur, sel: sel, idx: idx})
}

func enqSend[T any](s *Sim, ch chan<- T, v T, sel *selState, idx int) {
	if ch == nil {
		return
	}
	st := s.chst(skey(ch), true)
	vv := v
	st.sendq = append(st.sendq, &waiter{t: s.cur, sel: sel, idx: idx, val: &vv, push: func() bool {
		select {
		case ch <- vv:
			return true
		default:
			return false
		}
	}})
}

func (s *Sim) chkKilled() {
	if s.cur != nil && s.cur.killed {
		panic(killed)
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s := cur
	if s == nil {
		v, ok = <-ch
		return
	}
	s.chkKilled()
	s.syncPoint()
	v, ok, done := tryRecv(s, ch)
	if done {
		return v, ok
	}
	sel := &selState{}
	enqRecv(s, ch, sel, 0)
	for !sel.fired {
		s.block("chan receive")
	}
	if sel.got != nil {
		v = *(sel.got.(*T))
	}
	return v, sel.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Send is ch <- v, as Send(ch)(v).
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		s := cur
		if s == nil {
			ch <- v
			return
		}
		s.chkKilled()
		s.syncPoint()
		if trySend(s, ch, v) {
			return
		}
		sel := &selState{}
		enqSend(s, ch, v, sel, 0)
		for !sel.fired {
			s.block("chan send")
		}
		if sel.closed {
			panic(fmt.Errorf("send on closed channel"))
		}
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := cur
	if s == nil {
		close(ch)
		return
	}
	s.syncPoint()
	close(ch) // panics as the real one
	st := s.chst(skey(ch), false)
	if st == nil {
		return
	}
	for w := pop(&st.recvq); w != nil; w = pop(&st.recvq) {
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, false
		s.ready(w.t)
	}
	for w := pop(&st.sendq); w != nil; w = pop(&st.sendq) {
		w.sel.fired, w.sel.idx, w.sel.closed = true, w.idx, true
		s.ready(w.t)
	}
}

// RangeChan is range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case of a select.
type Case interface {
	try(s *Sim) bool
	enq(s *Sim, sel *selState, idx int)
	take(sel *selState)
}

// RecvSlot is a receiving case.
type RecvSlot[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *RecvSlot[T] { return &RecvSlot[T]{ch: ch} }

func (c *RecvSlot[T]) try(s *Sim) (done bool) {
	v, ok, done := tryRecv(s, c.ch)
	if done {
		c.V, c.OK = v, ok
	}
	return
}
func (c *RecvSlot[T]) enq(s *Sim, sel *selState, idx int) { enqRecv(s, c.ch, sel, idx) }
func (c *RecvSlot[T]) take(sel *selState) {
	if sel.got != nil {
		c.V = *(sel.got.(*T))
	}
	c.OK = sel.ok
}

// SendSlot is a sending case.
type SendSlot[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SendSlot[T] {
	return func(v T) *SendSlot[T] { return &SendSlot[T]{ch, v} }
}
func (c *SendSlot[T]) try(s *Sim) bool                    { return trySend(s, c.ch, c.v) }
func (c *SendSlot[T]) enq(s *Sim, sel *selState, idx int) { enqSend(s, c.ch, c.v, sel, idx) }
func (c *SendSlot[T]) take(sel *selState) {
	if sel.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
}

// Select runs a select statement and returns the index of the case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := cur
	if s == nil {
		panic("select outside of a simulation")
	}
	s.chkKilled()
	s.syncPoint()
	start := 0
	if len(cases) > 1 {
		s.sels++
		if s.replay {
			if v, ok := s.rpSels[s.sels]; ok && v < len(cases) {
				start = v
				s.rec.Sels = append(s.rec.Sels, Pick{s.sels, v})
			}
		} else if s.cfg.Policy != "fifo" {
			if start = s.rng.Intn(len(cases)); start != 0 {
				s.rec.Sels = append(s.rec.Sels, Pick{s.sels, start})
			}
		}
	}
	for i := range cases {
		k := (start + i) % len(cases)
		if cases[k].try(s) {
			return k
		}
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	for i, c := range cases {
		c.enq(s, sel, i)
	}
	for !sel.fired {
		s.block("select")
	}
	cases[sel.idx].take(sel)
	return sel.idx
}

// BlockForever is select{}.
func BlockForever() {
	for {
		cur.block("select{}")
	}
}
