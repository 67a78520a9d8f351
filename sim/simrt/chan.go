package simrt

import (
	"time"
	"unsafe"
)

// Channels of the instrumented code keep their types; what goes through them
// is held here. Channels that come from elsewhere are polled.

type chn struct {
	keep   any
	cap    int
	q      []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type sel struct {
	fired int
	val   any
	ok    bool
}

type waiter struct {
	s   *sel
	idx int
	val any
}

// Sel is the outcome of a select statement.
type Sel struct {
	I   int
	Val any
	Ok  bool
}

// Case is one case of a select statement.
type Case struct {
	p    unsafe.Pointer
	c    *chn
	send bool
	val  any
	try  func() (any, bool, bool) // channel from elsewhere
}

var chans = map[unsafe.Pointer]*chn{}

func chanKey[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// MakeChan registers a channel the instrumented code makes.
func MakeChan[C ~chan T, T any](c C) C {
	chans[*(*unsafe.Pointer)(unsafe.Pointer(&c))] = &chn{keep: c, cap: cap(c)}
	return c
}

// RecvCase is a case that receives.
func RecvCase[T any](c <-chan T) Case {
	p := chanKey(c)
	k := Case{p: p, c: chans[p]}
	if k.c == nil && p != nil {
		k.try = func() (any, bool, bool) {
			select {
			case v, ok := <-c:
				return v, ok, true
			default:
				return nil, false, false
			}
		}
	}
	return k
}

// SendCase is a case that sends.
func SendCase[T any](c chan<- T, v T) Case {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	k := Case{p: p, c: chans[p], send: true, val: v}
	if k.c == nil && p != nil {
		k.try = func() (any, bool, bool) {
			select {
			case c <- v:
				return nil, false, true
			default:
				return nil, false, false
			}
		}
	}
	return k
}

func pop(l *[]*waiter) *waiter {
	for len(*l) > 0 {
		w := (*l)[0]
		*l = (*l)[1:]
		if w.s.fired < 0 {
			return w
		}
	}
	return nil
}

func (k *Case) ready() (v any, ok, done bool) {
	c := k.c
	switch {
	case c == nil && k.try != nil:
		return k.try()
	case c == nil:
		return
	case k.send:
		if c.closed {
			panic("send on closed channel")
		}
		if w := pop(&c.recvq); w != nil {
			w.s.fired, w.s.val, w.s.ok = w.idx, k.val, true
			Rel(k.p)
			Acq(k.p)
			return nil, false, true
		}
		if len(c.q) < c.cap {
			c.q = append(c.q, k.val)
			Rel(k.p)
			Acq(k.p)
			return nil, false, true
		}
	default:
		if len(c.q) > 0 {
			v = c.q[0]
			c.q = c.q[1:]
			if w := pop(&c.sendq); w != nil {
				c.q = append(c.q, w.val)
				w.s.fired = w.idx
			}
			Acq(k.p)
			Rel(k.p)
			return v, true, true
		}
		if w := pop(&c.sendq); w != nil {
			w.s.fired = w.idx
			Acq(k.p)
			Rel(k.p)
			return w.val, true, true
		}
		if c.closed {
			Acq(k.p)
			return nil, false, true
		}
	}
	return
}

// Select executes a select statement; I is -1 for the default case.
func Select(block bool, cases ...Case) Sel {
	Point()
	first := 0
	if W != nil && len(cases) > 1 {
		first = W.maprng.N(len(cases))
	}
	foreign := false
	for {
		for i := range cases {
			j := (i + first) % len(cases)
			if v, ok, done := cases[j].ready(); done {
				return Sel{j, v, ok}
			}
			foreign = foreign || cases[j].try != nil
		}
		if !block {
			return Sel{I: -1}
		}
		if !foreign {
			break
		}
		if W == nil || W.aborted != "" {
			panic(Abort{"channel from outside of the simulation"})
		}
		time.Sleep(time.Microsecond)
		Spend(100)
		Point()
	}
	s := &sel{fired: -1}
	for i, k := range cases {
		if k.c == nil {
			continue
		}
		w := &waiter{s, i, k.val}
		if k.send {
			k.c.sendq = append(k.c.sendq, w)
			Rel(k.p)
		} else {
			k.c.recvq = append(k.c.recvq, w)
		}
	}
	Block("channel", func() bool { return s.fired >= 0 })
	k := cases[s.fired]
	Acq(k.p)
	if k.send && !s.ok && k.c.closed && s.val == chanClosed {
		panic("send on closed channel")
	}
	if s.val == chanClosed {
		s.val = nil
	}
	return Sel{s.fired, s.val, s.ok}
}

type closedMark struct{}

var chanClosed any = closedMark{}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	Point()
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := chans[p]
	if c == nil {
		close(ch)
		return
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	close(ch) // for code that is not instrumented
	Rel(p)
	for w := pop(&c.recvq); w != nil; w = pop(&c.recvq) {
		w.s.fired, w.s.val, w.s.ok = w.idx, nil, false
	}
	for w := pop(&c.sendq); w != nil; w = pop(&c.sendq) {
		w.s.fired, w.s.val, w.s.ok = w.idx, chanClosed, false
	}
}

// Send sends v.
func Send[T any](c chan<- T, v T) { Select(true, SendCase(c, v)) }

// Recv receives a value.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives a value and tells whether the channel is open.
func Recv2[T any](c <-chan T) (T, bool) {
	s := Select(true, RecvCase(c))
	return Got(c, s)
}

// Got gives a received value its type.
func Got[T any](c <-chan T, s Sel) (T, bool) {
	var z T
	if !s.Ok {
		return z, false
	}
	v, _ := s.Val.(T)
	return v, true
}

// Got1 is Got for a case without the second variable.
func Got1[T any](c <-chan T, s Sel) T {
	v, _ := Got(c, s)
	return v
}

// ChanLen is len of a channel.
func ChanLen[T any](c <-chan T) int {
	if k := chans[chanKey(c)]; k != nil {
		return len(k.q)
	}
	return len(c)
}
