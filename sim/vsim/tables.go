package vsim

import "unsafe"

// ptrTable numbers pointers in order of first use.
type ptrTable struct {
	keys []unsafe.Pointer
	vals []uint64
	n    int
}

func ptrHash(p unsafe.Pointer) uint64 { return mix(uint64(uintptr(p)), 0xabcdef) }

func (t *ptrTable) id(p unsafe.Pointer) uint64 {
	if t.n*2 >= len(t.keys) {
		old, oldv := t.keys, t.vals
		sz := len(old) * 2
		if sz == 0 {
			sz = 256
		}
		t.keys = make([]unsafe.Pointer, sz)
		t.vals = make([]uint64, sz)
		for i, k := range old {
			if k != nil {
				t.put(k, oldv[i])
			}
		}
	}
	m := uint64(len(t.keys) - 1)
	i := ptrHash(p) & m
	for t.keys[i] != nil {
		if t.keys[i] == p {
			return t.vals[i]
		}
		i = (i + 1) & m
	}
	t.n++
	t.keys[i] = p
	t.vals[i] = uint64(t.n)
	return uint64(t.n)
}

func (t *ptrTable) put(p unsafe.Pointer, v uint64) {
	m := uint64(len(t.keys) - 1)
	i := ptrHash(p) & m
	for t.keys[i] != nil {
		i = (i + 1) & m
	}
	t.keys[i] = p
	t.vals[i] = v
}

// chanTable maps real channels (used as identities only) to simulated state.
type chanTable struct {
	keys []unsafe.Pointer
	vals []*hchan
	n    int
}

func (t *chanTable) get(p unsafe.Pointer, capacity int) *hchan {
	if t.n*2 >= len(t.keys) {
		old, oldv := t.keys, t.vals
		sz := len(old) * 2
		if sz == 0 {
			sz = 256
		}
		t.keys = make([]unsafe.Pointer, sz)
		t.vals = make([]*hchan, sz)
		for i, k := range old {
			if k != nil {
				t.put(k, oldv[i])
			}
		}
	}
	m := uint64(len(t.keys) - 1)
	i := ptrHash(p) & m
	for t.keys[i] != nil {
		if t.keys[i] == p {
			return t.vals[i]
		}
		i = (i + 1) & m
	}
	c := &hchan{ptr: p, cap: capacity}
	t.n++
	t.keys[i] = p
	t.vals[i] = c
	return c
}

func (t *chanTable) put(p unsafe.Pointer, v *hchan) {
	m := uint64(len(t.keys) - 1)
	i := ptrHash(p) & m
	for t.keys[i] != nil {
		i = (i + 1) & m
	}
	t.keys[i] = p
	t.vals[i] = v
}

func (t *chanTable) copyTo(d *chanTable) {
	for i, k := range t.keys {
		if k != nil {
			s := t.vals[i]
			c := d.get(k, s.cap)
			c.closed = s.closed
			c.head = s.head
			for _, v := range s.buf {
				c.buf = append(c.buf, v)
			}
		}
	}
}
