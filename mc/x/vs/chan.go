//go:build go1.23

package vs

import "unsafe"

// hchan mirrors the head of runtime.hchan (checked by SelfTest at start-up).
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func chlen(p unsafe.Pointer) int     { return int((*hchan)(p).qcount) }
func chcap(p unsafe.Pointer) int     { return int((*hchan)(p).dataqsiz) }
func chclosed(p unsafe.Pointer) bool { return (*hchan)(p).closed != 0 }

// SelfTest checks the assumptions about the runtime's channel layout.
func SelfTest() {
	c := make(chan int, 3)
	p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
	if chlen(p) != 0 || chcap(p) != 3 || chclosed(p) {
		panic("vs: unexpected channel layout")
	}
	c <- 1
	if chlen(p) != 1 {
		panic("vs: unexpected channel layout")
	}
	close(c)
	if !chclosed(p) {
		panic("vs: unexpected channel layout")
	}
}

// partner finds a parked thread that can complete a rendezvous on c with t.
func (x *Exec) partner(t *Thread, c SelCase) (*Thread, int) {
	for _, o := range x.threads {
		if o == t || o.dead || o.completed {
			continue
		}
		switch o.kind {
		case KSend:
			if !c.Send && o.ch == c.Ch {
				return o, -1
			}
		case KRecv:
			if c.Send && o.ch == c.Ch {
				return o, -1
			}
		case KSelect:
			for i, oc := range o.sel {
				if oc.Ch == c.Ch && oc.Send != c.Send {
					return o, i
				}
			}
		}
	}
	return nil, 0
}

func (x *Exec) chanReady(t *Thread, c SelCase) bool {
	if c.Ch == nil {
		return false
	}
	if chclosed(c.Ch) {
		return true
	}
	if chcap(c.Ch) > 0 {
		if c.Send {
			return chlen(c.Ch) < chcap(c.Ch)
		}
		return chlen(c.Ch) > 0
	}
	o, _ := x.partner(t, c)
	return o != nil
}

//go:noinline
func blockChan(p unsafe.Pointer, send bool, box unsafe.Pointer) {
	t := cur
	t.ch = p
	t.kind = KRecv
	t.what = "recv"
	if send {
		t.kind = KSend
		t.what = "send"
	}
	t.xfer = box
	t.completed = false
	releaseMerge(unsafe.Pointer(&t.tokOut))
	ex.yield(t)
}

// rendezvous completes an unbuffered operation of the running thread; it
// returns the partner's box (for a receive) and whether there was a partner.
//
//go:noinline
func rendezvous(p unsafe.Pointer, send bool, box unsafe.Pointer) (unsafe.Pointer, bool) {
	t := cur
	if t.completed {
		t.completed = false
		acquire(unsafe.Pointer(&t.tokIn))
		return t.xfer, true
	}
	o, i := ex.partner(t, SelCase{Ch: p, Send: send})
	if o == nil {
		return nil, false
	}
	var obox unsafe.Pointer
	if i >= 0 {
		o.selIdx = i
		obox = o.sel[i].box
	} else {
		obox = o.xfer
	}
	o.completed = true
	if send {
		o.xfer = box
	}
	acquire(unsafe.Pointer(&o.tokOut))
	releaseMerge(unsafe.Pointer(&o.tokIn))
	return obox, true
}

func ptrS[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrR[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Sender returns a function that performs ch <- v.
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) {
		p := ptrS(ch)
		if !Active() {
			if Killed() {
				return
			}
			ch <- v
			return
		}
		box := new(T)
		*box = v
		blockChan(p, true, unsafe.Pointer(box))
		if p != nil && chcap2(p) == 0 {
			if _, ok := rendezvous(p, true, unsafe.Pointer(box)); ok {
				return
			}
		}
		ch <- v // has room, or is closed and panics
	}
}

//go:noinline
func chcap2(p unsafe.Pointer) int { return chcap(p) }

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 performs v, ok = <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	p := ptrR(ch)
	if !Active() {
		if Killed() {
			return zero, false
		}
		v, ok := <-ch
		return v, ok
	}
	blockChan(p, false, nil)
	return doRecv(ch, p)
}

func doRecv[T any](ch <-chan T, p unsafe.Pointer) (T, bool) {
	if chcap2(p) == 0 {
		if b, ok := rendezvous(p, false, nil); ok {
			return *(*T)(b), true
		}
	}
	v, ok := <-ch
	return v, ok
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	if Killed() {
		return
	}
	Point("close")
	close(ch)
}

// SelectCase is an evaluated select case.
type SelectCase interface{ sc() SelCase }

// SendCase is a send case.
type SendCase[T any] struct {
	ch  chan<- T
	v   T
	box *T
}

// RecvCase is a receive case.
type RecvCase[T any] struct{ ch <-chan T }

// MkSend builds a send case.
func MkSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		b := new(T)
		*b = v
		return &SendCase[T]{ch, v, b}
	}
}

// MkRecv builds a receive case.
func MkRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch} }

func (c *SendCase[T]) sc() SelCase {
	return SelCase{Ch: ptrS(c.ch), Send: true, box: unsafe.Pointer(c.box)}
}
func (c *RecvCase[T]) sc() SelCase { return SelCase{Ch: ptrR(c.ch)} }

// Do performs the send of the chosen case.
func (c *SendCase[T]) Do() {
	if Killed() {
		return
	}
	if !Active() {
		c.ch <- c.v
		return
	}
	p := ptrS(c.ch)
	if chcap2(p) == 0 {
		if _, ok := rendezvous(p, true, unsafe.Pointer(c.box)); ok {
			return
		}
	}
	c.ch <- c.v
}

// Get performs the receive of the chosen case.
func (c *RecvCase[T]) Get() T {
	v, _ := c.Get2()
	return v
}

// Get2 performs the receive of the chosen case.
func (c *RecvCase[T]) Get2() (T, bool) {
	var zero T
	if Killed() {
		return zero, false
	}
	if !Active() {
		v, ok := <-c.ch
		return v, ok
	}
	return doRecv(c.ch, ptrR(c.ch))
}

// Select waits for one of the cases and returns its index (-1: default).
//
//go:noinline
func Select(hasDefault bool, cases ...SelectCase) int {
	t := cur
	if t == nil {
		panic("vs: select outside an execution")
	}
	if t.killed {
		return -1
	}
	t.sel = t.sel[:0]
	for _, c := range cases {
		t.sel = append(t.sel, c.sc())
	}
	t.selDef = hasDefault
	t.kind = KSelect
	t.what = "select"
	t.completed = false
	t.selIdx = -1
	releaseMerge(unsafe.Pointer(&t.tokOut))
	ex.yield(t)
	return t.selIdx
}

// ChIter iterates over a channel.
type ChIter[T any] struct {
	ch <-chan T
	V  T
}

// ChanIter replaces for range over a channel.
func ChanIter[T any](ch <-chan T) *ChIter[T] { return &ChIter[T]{ch: ch} }

// Next receives the next value.
func (c *ChIter[T]) Next() bool {
	v, ok := Recv2(c.ch)
	c.V = v
	return ok
}
