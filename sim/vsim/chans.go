package vsim

import "unsafe"

type hchan struct {
	ptr    unsafe.Pointer
	cap    int
	buf    []any
	head   int // sequence number of buf[0], for race slots
	sendq  []*waiter
	recvq  []*waiter
	closed bool
	slots  []byte
	cl     byte
}

// waiter is one goroutine waiting in one channel operation or select.
type waiter struct {
	g     *G
	done  bool // completed by the partner (unbuffered rendezvous)
	idx   int  // completed case
	val   any
	okv   bool
	vals  []any // per case values to send
	cases []*Case
	a, b  byte // race addresses
}

type errString string

func (e errString) Error() string { return string(e) }
func (e errString) RuntimeError() {}

func table() *chanTable {
	if rt != nil && cur != nil {
		return &rt.chans
	}
	return &base
}

func (c *hchan) slot(seq int) unsafe.Pointer {
	if len(c.slots) == 0 {
		c.slots = make([]byte, c.cap+1)
	}
	return unsafe.Pointer(&c.slots[seq%c.cap])
}

func touchSlot(p unsafe.Pointer) {
	RaceAcquire(p)
	RaceRelease(p)
}

// case kinds
const (
	kRecv = iota
	kSend
)

// Case is one communication of a select.
type Case struct {
	kind int
	p    unsafe.Pointer
	cap  int
	val  any
	ok   bool
}

func (c *hchan) push(v any) {
	touchSlot(c.slot(c.head + len(c.buf)))
	c.buf = append(c.buf, v)
}

func (c *hchan) pop() any {
	touchSlot(c.slot(c.head))
	v := c.buf[0]
	c.buf[0] = nil
	c.buf = c.buf[1:]
	c.head++
	return v
}

func (r *run) wakeQ(q []*waiter) {
	for _, w := range q {
		r.ready(w.g)
	}
}

func firstLive(q []*waiter, self *G) *waiter {
	for _, w := range q {
		if !w.done && w.g != self {
			return w
		}
	}
	return nil
}

// find returns the index of the case of w that waits on c with the given kind.
func (w *waiter) find(c *hchan, kind int) int {
	for i, cs := range w.cases {
		if cs.kind == kind && cs.p == c.ptr {
			return i
		}
	}
	panic("vsim: internal: waiter without case")
}

// try attempts one case without blocking.
func (r *run) try(cs *Case, self *G) bool {
	if cs.p == nil {
		return false
	}
	c := table().get(cs.p, cs.cap)
	if cs.kind == kSend {
		if c.closed {
			panic(errString("send on closed channel"))
		}
		if c.cap == 0 {
			w := firstLive(c.recvq, self)
			if w == nil {
				return false
			}
			w.done = true
			w.val = cs.val
			w.idx = w.find(c, kRecv)
			w.okv = true
			RaceAcquire(unsafe.Pointer(&w.a))
			RaceRelease(unsafe.Pointer(&w.b))
			r.ready(w.g)
			return true
		}
		if len(c.buf) < c.cap {
			c.push(cs.val)
			if r != nil {
				r.wakeQ(c.recvq)
			}
			return true
		}
		return false
	}
	if c.cap == 0 {
		if w := firstLive(c.sendq, self); w != nil {
			w.done = true
			w.idx = w.find(c, kSend)
			cs.val = w.vals[w.idx]
			cs.ok = true
			RaceAcquire(unsafe.Pointer(&w.a))
			RaceRelease(unsafe.Pointer(&w.b))
			r.ready(w.g)
			return true
		}
	} else if len(c.buf) > 0 {
		cs.val = c.pop()
		cs.ok = true
		if r != nil {
			r.wakeQ(c.sendq)
		}
		return true
	}
	if c.closed {
		RaceAcquire(unsafe.Pointer(&c.cl))
		cs.val = nil
		cs.ok = false
		return true
	}
	return false
}

func removeW(q []*waiter, w *waiter) []*waiter {
	out := q[:0]
	for _, x := range q {
		if x != w {
			out = append(out, x)
		}
	}
	for i := len(out); i < len(q); i++ {
		q[i] = nil
	}
	return out
}

// do performs one of the cases; -1 if none is ready and hasDefault.
func do(hasDefault bool, what string, cases []*Case) int {
	var obj unsafe.Pointer
	if len(cases) == 1 {
		obj = cases[0].p
	}
	r := op(what, obj)
	if r == nil {
		for i, c := range cases {
			if (*run)(nil).tryBase(c) {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("vsim: channel operation would block outside a simulated run")
	}
	g := cur
	for {
		n := 0
		for _, c := range cases {
			if r.isReady(c, g) {
				n++
			}
		}
		if n > 0 {
			k := 0
			if n > 1 {
				k = Choose("select", n)
			}
			for i, c := range cases {
				if r.isReady(c, g) {
					if k == 0 {
						if !r.try(c, g) {
							panic("vsim: internal: ready case failed")
						}
						if len(cases) > 1 {
							r.syncEvent(g, "case", c.p)
						}
						opAfter()
						return i
					}
					k--
				}
			}
		}
		if hasDefault {
			opAfter()
			return -1
		}
		w := &waiter{g: g, cases: cases}
		for _, c := range cases {
			if c.kind == kSend {
				w.vals = append(w.vals, c.val)
			} else {
				w.vals = append(w.vals, nil)
			}
		}
		for _, c := range cases {
			if c.p == nil {
				continue
			}
			h := table().get(c.p, c.cap)
			if c.kind == kSend {
				h.sendq = append(h.sendq, w)
			} else {
				h.recvq = append(h.recvq, w)
			}
		}
		RaceRelease(unsafe.Pointer(&w.a))
		r.block(g, what, obj)
		for _, c := range cases {
			if c.p == nil {
				continue
			}
			h := table().get(c.p, c.cap)
			if c.kind == kSend {
				h.sendq = removeW(h.sendq, w)
			} else {
				h.recvq = removeW(h.recvq, w)
			}
		}
		if w.done {
			RaceAcquire(unsafe.Pointer(&w.b))
			if cases[w.idx].kind == kRecv {
				cases[w.idx].val = w.val
				cases[w.idx].ok = w.okv
			}
			r.syncEvent(g, "resumed", cases[w.idx].p)
			return w.idx
		}
	}
}

func (r *run) isReady(cs *Case, self *G) bool {
	if cs.p == nil {
		return false
	}
	c := table().get(cs.p, cs.cap)
	if c.closed {
		return true
	}
	if cs.kind == kSend {
		if c.cap == 0 {
			return firstLive(c.recvq, self) != nil
		}
		return len(c.buf) < c.cap
	}
	if c.cap == 0 {
		return firstLive(c.sendq, self) != nil
	}
	return len(c.buf) > 0
}

func (r *run) tryBase(cs *Case) bool {
	if cs.p == nil {
		return false
	}
	c := base.get(cs.p, cs.cap)
	if cs.kind == kSend {
		if c.closed {
			panic(errString("send on closed channel"))
		}
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, cs.val)
			return true
		}
		return false
	}
	if len(c.buf) > 0 {
		cs.val, cs.ok = c.buf[0], true
		c.buf = c.buf[1:]
		c.head++
		return true
	}
	if c.closed {
		cs.val, cs.ok = nil, false
		return true
	}
	return false
}

func closeChan(p unsafe.Pointer, capacity int) {
	if p == nil {
		panic(errString("close of nil channel"))
	}
	r := op("close", p)
	c := table().get(p, capacity)
	if c.closed {
		panic(errString("close of closed channel"))
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.cl))
	if r != nil {
		r.wakeQ(c.recvq)
		r.wakeQ(c.sendq)
		opAfter()
	}
}

func chanLen(p unsafe.Pointer, capacity int) int {
	if p == nil {
		return 0
	}
	op("len", p)
	return len(table().get(p, capacity).buf)
}

//go:noinline
func sendAny(p unsafe.Pointer, capacity int, v any) {
	cs := &Case{kind: kSend, p: p, cap: capacity, val: v}
	do(false, "chan send", []*Case{cs})
}

//go:noinline
func recvAny(p unsafe.Pointer, capacity int) (any, bool) {
	cs := &Case{kind: kRecv, p: p, cap: capacity}
	do(false, "chan receive", []*Case{cs})
	return cs.val, cs.ok
}
