package vsim

import "unsafe"

// Lock is the state of a simulated mutex.
type Lock struct {
	locked  bool
	waiters []*G
	epoch   uint32
	hb      byte
}

// fresh forgets what a previous run, which may have been killed, left in a
// lock that outlives it.
func (l *Lock) fresh() {
	if l.epoch != epoch {
		l.epoch = epoch
		l.locked, l.waiters = false, nil
	}
}

func rmG(q []*G, g *G) []*G {
	for i, x := range q {
		if x == g {
			out := make([]*G, 0, len(q)-1)
			for j, y := range q {
				if j != i {
					out = append(out, y)
				}
			}
			return out
		}
	}
	return q
}

func wakeAll(r *run, q *[]*G) {
	for _, g := range *q {
		r.ready(g)
	}
	*q = nil
}

func (l *Lock) Lock(kind string) {
	r := op(kind, unsafe.Pointer(l))
	l.fresh()
	if r == nil {
		if l.locked {
			panic("vsim: Lock would block outside a run")
		}
		l.locked = true
		return
	}
	for l.locked {
		l.waiters = append(l.waiters, cur)
		r.block(cur, kind, unsafe.Pointer(l))
		l.waiters = rmG(l.waiters, cur)
	}
	l.locked = true
	RaceAcquire(unsafe.Pointer(&l.hb))
}

func (l *Lock) TryLock() bool {
	op("trylock", unsafe.Pointer(l))
	l.fresh()
	if l.locked {
		return false
	}
	l.locked = true
	RaceAcquire(unsafe.Pointer(&l.hb))
	return true
}

func (l *Lock) Unlock() {
	r := op("unlock", unsafe.Pointer(l))
	l.fresh()
	if !l.locked {
		Crash("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	RaceRelease(unsafe.Pointer(&l.hb))
	l.locked = false
	if r != nil {
		wakeAll(r, &l.waiters)
		opAfter()
	}
}

// RWLock is the state of a simulated RWMutex.
type RWLock struct {
	writer  bool
	readers int
	pending int
	waiters []*G
	epoch   uint32
	hbw     byte
	hbr     byte
}

func (l *RWLock) fresh() {
	if l.epoch != epoch {
		l.epoch = epoch
		l.writer, l.readers, l.pending, l.waiters = false, 0, 0, nil
	}
}

func (l *RWLock) Lock() {
	r := op("wlock", unsafe.Pointer(l))
	l.fresh()
	if r == nil {
		l.writer = true
		return
	}
	l.pending++
	for l.writer || l.readers > 0 {
		l.waiters = append(l.waiters, cur)
		r.block(cur, "rwmutex lock", unsafe.Pointer(l))
		l.waiters = rmG(l.waiters, cur)
	}
	l.pending--
	l.writer = true
	RaceAcquire(unsafe.Pointer(&l.hbw))
	RaceAcquire(unsafe.Pointer(&l.hbr))
}

func (l *RWLock) TryLock() bool {
	op("trywlock", unsafe.Pointer(l))
	l.fresh()
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	RaceAcquire(unsafe.Pointer(&l.hbw))
	RaceAcquire(unsafe.Pointer(&l.hbr))
	return true
}

func (l *RWLock) Unlock() {
	r := op("wunlock", unsafe.Pointer(l))
	l.fresh()
	if !l.writer {
		Crash("panic", "fatal error: sync: Unlock of unlocked RWMutex")
	}
	RaceRelease(unsafe.Pointer(&l.hbw))
	l.writer = false
	if r != nil {
		wakeAll(r, &l.waiters)
		opAfter()
	}
}

func (l *RWLock) RLock() {
	r := op("rlock", unsafe.Pointer(l))
	l.fresh()
	if r == nil {
		l.readers++
		return
	}
	for l.writer || l.pending > 0 {
		l.waiters = append(l.waiters, cur)
		r.block(cur, "rwmutex rlock", unsafe.Pointer(l))
		l.waiters = rmG(l.waiters, cur)
		if !l.writer {
			break // a reader that waited is admitted after the writer it waited for
		}
	}
	l.readers++
	RaceAcquire(unsafe.Pointer(&l.hbw))
}

func (l *RWLock) TryRLock() bool {
	op("tryrlock", unsafe.Pointer(l))
	l.fresh()
	if l.writer || l.pending > 0 {
		return false
	}
	l.readers++
	RaceAcquire(unsafe.Pointer(&l.hbw))
	return true
}

func (l *RWLock) RUnlock() {
	r := op("runlock", unsafe.Pointer(l))
	l.fresh()
	if l.readers <= 0 {
		Crash("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	RaceReleaseMerge(unsafe.Pointer(&l.hbr))
	l.readers--
	if r != nil {
		wakeAll(r, &l.waiters)
		opAfter()
	}
}

// Group is the state of a simulated WaitGroup.
type Group struct {
	n       int
	waiters []*G
	hb      byte
}

func (w *Group) Add(d int) {
	r := op("wg.add", unsafe.Pointer(w))
	if d < 0 {
		RaceReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if w.n < 0 {
		panic(errString("sync: negative WaitGroup counter"))
	}
	if w.n == 0 && r != nil {
		wakeAll(r, &w.waiters)
		opAfter()
	}
}

func (w *Group) Wait() {
	r := op("wg.wait", unsafe.Pointer(w))
	if r == nil {
		if w.n > 0 {
			panic("vsim: Wait would block outside a run")
		}
		return
	}
	if w.n > 0 {
		// One wake-up suffices: Wait returns once the counter was zero.
		w.waiters = append(w.waiters, cur)
		r.block(cur, "WaitGroup wait", unsafe.Pointer(w))
		w.waiters = rmG(w.waiters, cur)
	}
	RaceAcquire(unsafe.Pointer(&w.hb))
}

// OnceState is the state of a simulated Once.
type OnceState struct {
	done    bool
	running bool
	waiters []*G
	hb      byte
}

// Enter reports whether the caller must run the function (and then call Leave).
func (o *OnceState) Enter() bool {
	r := op("once", unsafe.Pointer(o))
	for o.running && !o.done {
		if r == nil {
			panic("vsim: recursive Once outside a run")
		}
		o.waiters = append(o.waiters, cur)
		r.block(cur, "once", unsafe.Pointer(o))
		o.waiters = rmG(o.waiters, cur)
	}
	if o.done {
		RaceAcquire(unsafe.Pointer(&o.hb))
		return false
	}
	o.running = true
	return true
}

// Leave marks the Once done.
func (o *OnceState) Leave() {
	r := op("once.done", unsafe.Pointer(o))
	RaceRelease(unsafe.Pointer(&o.hb))
	o.done = true
	o.running = false
	if r != nil {
		wakeAll(r, &o.waiters)
		opAfter()
	}
}

// WaitList is a FIFO list of blocked goroutines (condition variables).
type WaitList struct {
	q  []*G
	hb byte
}

// Wait blocks after calling unlock.
func (l *WaitList) Wait(unlock func()) {
	r := rt
	if r == nil || cur == nil {
		panic("vsim: Cond.Wait outside a run")
	}
	g := cur
	l.q = append(l.q, g)
	unlock()
	in := false
	for _, x := range l.q {
		if x == g {
			in = true
		}
	}
	for in { // not signalled while unlocking
		r.block(g, "cond wait", unsafe.Pointer(l))
		in = false
		for _, x := range l.q {
			if x == g {
				in = true
			}
		}
	}
	RaceAcquire(unsafe.Pointer(&l.hb))
}

// Wake wakes n goroutines (all if n < 0).
func (l *WaitList) Wake(n int) {
	r := op("cond wake", unsafe.Pointer(l))
	RaceReleaseMerge(unsafe.Pointer(&l.hb))
	for len(l.q) > 0 && n != 0 {
		g := l.q[0]
		l.q = l.q[1:]
		n--
		if r != nil {
			r.ready(g)
		}
	}
	if r != nil {
		opAfter()
	}
}

// SyncOp is a scheduling point for shims outside this package.
func SyncOp(kind string, obj unsafe.Pointer) { op(kind, obj) }

// AfterOp is a scheduling point after a state change.
func AfterOp() {
	if rt != nil && cur != nil {
		opAfter()
	}
}

// Timers.

// Timer is a simulated timer.
type Timer struct {
	when int64
	seq  int64
	fn   func()
	g    *G
	on   bool
	Per  int64
	hb   byte
}

// Now is the virtual time in nanoseconds since the start of the run.
func Now() int64 {
	if rt == nil {
		return 0
	}
	return rt.now
}

// Sleep blocks for d virtual nanoseconds.
func Sleep(d int64) {
	r := op("sleep", nil)
	if r == nil || d <= 0 {
		return
	}
	t := &Timer{g: cur}
	r.arm(t, d)
	r.block(cur, "sleep", nil)
}

func (r *run) arm(t *Timer, d int64) {
	if d < 0 {
		d = 0
	}
	r.tseq++
	t.seq = r.tseq
	t.when = r.now + d
	t.on = true
	r.timers = append(r.timers, t)
}

// Arm starts t, calling fn in scheduler context (it must not block).
func Arm(t *Timer, d int64, fn func()) {
	op("timer", nil)
	t.fn = fn
	if rt != nil {
		RaceRelease(unsafe.Pointer(&t.hb))
		rt.arm(t, d)
	}
}

// Stop disarms t.
func Stop(t *Timer) bool {
	op("timer stop", nil)
	was := t.on
	t.on = false
	return was
}

// StopNB disarms t in scheduler context.
func StopNB(t *Timer) { t.on = false }

// fireTimers advances the clock to the next timer; false if there is none.
func (r *run) fireTimers() bool {
	k := 0
	for _, t := range r.timers {
		if t.on {
			r.timers[k] = t
			k++
		}
	}
	r.timers = r.timers[:k]
	if k == 0 {
		return false
	}
	b := r.timers[0]
	for _, t := range r.timers {
		if t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	if b.when > r.now {
		r.now = b.when
	}
	b.on = false
	if b.Per > 0 {
		r.arm(b, b.Per)
	}
	if b.g != nil {
		r.ready(b.g)
	} else {
		b.fn()
	}
	return true
}

// Spawn makes a new goroutine from scheduler context (timer functions).
func Spawn(label string, fn func()) {
	r := rt
	n := r.newG(r.mainG.path+"."+label, fn)
	r.woke = true
	_ = n
}

// PushNB is a non-blocking send from scheduler context (timer channels).
func PushNB[T any](ch chan T, v T) {
	p, n := chp[T](ch)
	pushNB(p, n, box(v))
}

func pushNB(p unsafe.Pointer, n int, v any) {
	c := rt.chans.get(p, n)
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		rt.wakeQ(c.recvq)
	}
}

// CloseNB closes ch from scheduler context, or by a shim in one step.
func CloseNB[T any](ch chan T) {
	p, n := chp[T](ch)
	closeNB(p, n)
}

func closeNB(p unsafe.Pointer, n int) {
	c := table().get(p, n)
	if c.closed {
		return
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.cl))
	if rt != nil {
		rt.wakeQ(c.recvq)
		rt.wakeQ(c.sendq)
	}
}
