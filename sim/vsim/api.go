package vsim

import "unsafe"

// The generic functions below are instantiated inside the instrumented
// packages, so they touch no scheduler state themselves.

func chp[T any](ch <-chan T) (unsafe.Pointer, int) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)
}

func chps[T any](ch chan<- T) (unsafe.Pointer, int) {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch)
}

func unbox[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return *(v.(*T))
}

func box[T any](v T) any { return &v }

// Send is ch <- v, curried to keep the evaluation order and assignability.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		p, n := chps(ch)
		sendAny(p, n, box(v))
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	p, n := chp(ch)
	v, _ := recvAny(p, n)
	return unbox[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	p, n := chp(ch)
	v, ok := recvAny(p, n)
	return unbox[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	p, n := chps(ch)
	closeChan(p, n)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	p, n := chp(ch)
	return chanLen(p, n)
}

// LenS is len(ch) of a send-only channel.
func LenS[T any](ch chan<- T) int {
	p, n := chps(ch)
	return chanLen(p, n)
}

// RCase is a receive case of a select.
type RCase[T any] struct{ c Case }

func (c *RCase[T]) base() *Case { return &c.c }

// Val returns the received value.
func (c *RCase[T]) Val() T { return unbox[T](c.c.val) }

// Val2 returns the received value and whether the channel is open.
func (c *RCase[T]) Val2() (T, bool) { return unbox[T](c.c.val), c.c.ok }

// Ok returns whether the value was sent (and not the zero value of a closed channel).
func (c *RCase[T]) Ok() bool { return c.c.ok }

// SCase is a send case of a select.
type SCase struct{ c Case }

func (c *SCase) base() *Case { return &c.c }

// ACase is any case of a select.
type ACase interface{ base() *Case }

// RecvCase prepares a receive case.
func RecvCase[T any](ch <-chan T) *RCase[T] {
	p, n := chp(ch)
	c := &RCase[T]{}
	c.c.kind, c.c.p, c.c.cap = kRecv, p, n
	return c
}

// SendCase prepares a send case.
func SendCase[T any](ch chan<- T) func(T) *SCase {
	return func(v T) *SCase {
		p, n := chps(ch)
		return &SCase{c: Case{kind: kSend, p: p, cap: n, val: box(v)}}
	}
}

// Select performs one of the cases and returns its index, or -1 for default.
//
//go:noinline
func Select(hasDefault bool, cases ...ACase) int {
	cs := make([]*Case, len(cases))
	for i, c := range cases {
		cs[i] = c.base()
	}
	return do(hasDefault, "select", cs)
}

// ChanIt iterates over a channel.
type ChanIt[T any] struct{ ch <-chan T }

// RangeInit starts a range loop over ch; the first result declares the variable.
func RangeInit[T any](ch <-chan T) (T, ChanIt[T]) {
	var z T
	return z, ChanIt[T]{ch}
}

// Range starts a range loop over ch.
func Range[T any](ch <-chan T) ChanIt[T] { return ChanIt[T]{ch} }

// Next receives into p.
func (it ChanIt[T]) Next(p *T) bool {
	v, ok := Recv2(it.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// MapIt iterates over a map in an order decided by the simulator.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapInit starts a range loop over m.
func MapInit[M ~map[K]V, K comparable, V any](m M) (K, V, *MapIt[K, V]) {
	var k K
	var v V
	it := &MapIt[K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		orderKeys(it.keys)
	}
	return k, v, it
}

// MapIter starts a range loop over m.
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	_, _, it := MapInit(m)
	return it
}

// Next advances the iteration.
func (it *MapIt[K, V]) Next(kp *K, vp *V) bool {
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		v, ok := it.m[k]
		if !ok {
			if k == k {
				continue
			}
			for k2, v2 := range it.m { // NaN keys
				if k2 != k2 {
					v = v2
					break
				}
			}
		}
		if kp != nil {
			*kp = k
		}
		if vp != nil {
			*vp = v
		}
		return true
	}
	return false
}

func keyLess(a, b any) (less, known bool) {
	switch x := a.(type) {
	case string:
		return x < b.(string), true
	case int:
		return x < b.(int), true
	case int8:
		return x < b.(int8), true
	case int16:
		return x < b.(int16), true
	case int32:
		return x < b.(int32), true
	case int64:
		return x < b.(int64), true
	case uint:
		return x < b.(uint), true
	case uint8:
		return x < b.(uint8), true
	case uint16:
		return x < b.(uint16), true
	case uint32:
		return x < b.(uint32), true
	case uint64:
		return x < b.(uint64), true
	case uintptr:
		return x < b.(uintptr), true
	case float32:
		return x < b.(float32), true
	case float64:
		return x < b.(float64), true
	case bool:
		return !x && b.(bool), true
	}
	return false, false
}

func orderKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	if _, known := keyLessG(keys[0], keys[0]); known {
		for i := 1; i < len(keys); i++ {
			for j := i; j > 0; j-- {
				l, _ := keyLessG(keys[j], keys[j-1])
				if !l {
					break
				}
				keys[j], keys[j-1] = keys[j-1], keys[j]
			}
		}
	}
	// A rotation and a direction, chosen by the simulator.
	n := len(keys)
	c := Choose("map order", 2*n)
	if c >= n {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
		c -= n
	}
	if c > 0 {
		rot := make([]K, 0, n)
		rot = append(rot, keys[c:]...)
		rot = append(rot, keys[:c]...)
		copy(keys, rot)
	}
}

func keyLessG[K comparable](a, b K) (bool, bool) {
	x, y := any(a), any(b)
	switch x.(type) {
	case string, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, float32, float64, bool:
		return keyLess(x, y)
	}
	return kindLess(x, y)
}
