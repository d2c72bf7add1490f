package harness

import (
	"bytes"
	"encoding"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"syscall"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"

	"spagosim/vsim"
	"spagosim/vsim/vos"
)

// loadW loads dumped objects from faulty sources.
type loadW struct {
	Arts   []artSpec
	Trials []loadTrial
}

type loadTrial struct {
	Loads []loadOne
	Then  int // what is done with what was loaded
}

type loadOne struct {
	Art   int
	File  bool
	Fault string
	Pos   int // where, in permille of the bytes
	Frag  int // fragmentation pattern
	Seed  uint64
}

var loadFaults = []string{"", "", "end", "end", "end near", "error", "error with data", "once", "open"}

func genLoad(r *Rng) any {
	w := &loadW{}
	for k := r.Range(1, 2); k > 0; k-- {
		w.Arts = append(w.Arts, genArt(r))
	}
	for k := r.Range(2, 8); k > 0; k-- {
		t := loadTrial{Then: r.Intn(6)}
		for j := Pick(r, 1, 1, 2, 3); j > 0; j-- {
			d := loadOne{Art: r.Intn(len(w.Arts)), File: r.P(.5), Pos: r.Intn(1001), Fault: Pick(r, loadFaults...), Frag: r.Intn(6), Seed: r.U64()}
			if r.P(.15) {
				d.Pos = Pick(r, 0, 1, 999, 1000)
			}
			t.Loads = append(t.Loads, d)
		}
		w.Trials = append(w.Trials, t)
	}
	return w
}

// fragReader delivers bytes in fragments and fails as told.
type fragReader struct {
	e     *Env
	b     []byte
	pos   int
	frag  int
	fault string
	at    int // the fault happens once this many bytes were delivered
	hit   bool
	r     *Rng
	zeros int
}

func (f *fragReader) size(n int) int {
	switch modulo(f.frag, 6) {
	case 1:
		return 1
	case 2:
		return min(n, 1+f.r.Intn(7))
	case 3:
		return min(n, 1+f.r.Intn(200))
	case 4:
		if f.zeros < 3 && f.r.P(.3) {
			f.zeros++
			return 0
		}
		f.zeros = 0
		return min(n, 1+f.r.Intn(50))
	case 5:
		return min(n, 512)
	}
	return n
}

func (f *fragReader) Read(b []byte) (int, error) {
	if modulo(f.frag, 6) != 1 || f.pos%16 == 0 {
		vsim.Step()
	}
	if len(b) == 0 {
		return 0, nil
	}
	fire := func() {
		f.hit = true
		f.e.Fault("stream: " + f.fault)
	}
	end := len(f.b)
	switch f.fault {
	case "end", "end near":
		end = min(end, f.at)
	case "error", "error with data", "once":
		if !f.hit || f.fault != "once" {
			end = min(end, f.at)
		}
	}
	n := min(f.size(len(b)), end-f.pos)
	copy(b, f.b[f.pos:f.pos+n])
	f.pos += n
	if f.pos < end {
		return n, nil
	}
	failing := end == f.at && f.fault != "" && f.fault != "open" && (f.fault != "once" || !f.hit)
	switch {
	case failing && f.fault == "error with data":
		fire()
		return n, errDisk
	case n > 0 && (f.pos < len(f.b) || f.frag%2 == 0):
		return n, nil // the end or the error come with the next call
	case failing && (f.fault == "end" || f.fault == "end near"):
		fire()
		return n, io.EOF
	case failing:
		fire()
		return n, errDisk
	}
	return n, io.EOF
}

// keepers are things that hold on to what was loaded.
type keptObj struct {
	got  any
	want any
	what string
}

func execLoad(wl any, e *Env) *Violation {
	w := wl.(*loadW)
	if len(w.Arts) == 0 || len(w.Arts) > 4 || len(w.Trials) > 12 {
		return nil
	}
	var arts []*artifact
	var clean [][]byte
	if v := e.Must("dumps", func() {
		for i, s := range w.Arts {
			a := s.build()
			var b bytes.Buffer
			if err := a.dump(&b); err != nil {
				Fail("refused", "dumping object %d returned %v", i, err)
			}
			arts, clean = append(arts, a), append(clean, b.Bytes())
		}
	}, Sequential); v != nil {
		return v
	}
	for ti, t := range w.Trials {
		if len(t.Loads) > 5 {
			continue
		}
		label := fmt.Sprintf("trial %d", ti)
		vos.Cur = vos.NewFS()
		plans := map[string]*loadOne{}
		state := map[string]*fragReader{}
		at := func(d *loadOne, n int) int {
			if d.Fault == "end near" {
				return n - 1 - modulo(d.Pos, 40)%n
			}
			return modulo(d.Pos, 1001) * (n - 1) / 1000
		}
		for k := range t.Loads {
			d := &t.Loads[k]
			b := clean[modulo(d.Art, len(arts))]
			name := fmt.Sprintf("/data/model-%d", k)
			plans[name] = d
			state[name] = &fragReader{e: e, frag: d.Frag, r: NewRng(d.Seed)}
			if d.Fault == "end" || d.Fault == "end near" {
				b = b[:at(d, len(b))]
			}
			if d.Fault != "open" || d.Seed%2 == 0 {
				vos.Cur.Put(name, b)
			}
		}
		vos.Cur.Hook = func(op, file string, n int) (ft vos.Fault) {
			d, s := plans[file], state[file]
			if d == nil {
				return
			}
			switch {
			case op == "open" && d.Fault == "open" && d.Seed%2 == 0:
				e.Fault("file: open")
				return vos.Fault{Err: syscall.EACCES}
			case op == "read":
				b := clean[modulo(d.Art, len(arts))]
				k := s.size(n)
				if k == 0 {
					k = 1
				}
				fails := d.Fault == "error" || d.Fault == "error with data" || d.Fault == "once" && !s.hit
				if fails && s.pos >= at(d, len(b)) {
					s.hit = true
					e.Fault("file: read error")
					return vos.Fault{Err: syscall.EIO}
				}
				if fails {
					k = min(k, at(d, len(b))-s.pos)
				}
				s.pos += k
				if k < n {
					return vos.Fault{Part: true, N: k}
				}
			}
			return
		}
		if v := e.Must(label, func() {
			fin := make(chan int, len(t.Loads))
			var kept []keptObj
			sources := make([][]byte, len(t.Loads))
			for k := range t.Loads {
				d := &t.Loads[k]
				i := modulo(d.Art, len(arts))
				sources[k] = append([]byte(nil), clean[i]...)
				vsim.Go(func() {
					what := fmt.Sprintf("trial %d: loading object %d (%d bytes", ti, k, len(clean[i]))
					var got any
					var err error
					p := at(d, len(clean[i]))
					damaged := d.Fault != "" && (d.Fault != "open" || d.File)
					if damaged {
						what += fmt.Sprintf(", %s at %d)", d.Fault, p)
					} else {
						what += ")"
					}
					if d.File {
						got, err = arts[i].loadFile(fmt.Sprintf("/data/model-%d", k))
						if d.Fault == "end" || d.Fault == "end near" {
							e.Fault("file: " + d.Fault)
						}
					} else {
						f := &fragReader{e: e, b: sources[k], frag: d.Frag, fault: d.Fault, at: p, r: NewRng(d.Seed)}
						got, err = arts[i].load(f)
					}
					switch {
					case damaged && err == nil:
						Fail("accepted", "%s reported success", what)
					case damaged:
						e.Probe("damage reported")
						if d.Fault == "open" && d.Seed%2 == 1 && !errors.Is(err, fs.ErrNotExist) {
							e.Probe("missing file: other error")
						}
					case err != nil:
						Fail("refused", "%s returned %v", what, err)
					default:
						if df := diffObj(got, arts[i].obj); df != "" {
							Fail("differs", "%s: %s", what, df)
						}
						kept = append(kept, keptObj{got, arts[i].obj, what})
						e.Probe("loaded")
					}
					vsim.Send(fin)(1)
				})
			}
			for range t.Loads {
				vsim.Recv(fin)
			}
			CheckLeaks("loading")
			// Nothing that happens later alters what was loaded.
			for _, b := range sources {
				for i := range b {
					b[i] = 0x5a
				}
			}
			what := "the source was overwritten"
			switch modulo(t.Then, 6) {
			case 1:
				what = "more objects were loaded from one stream"
				kept = append(kept, sameStream(arts, clean)...)
			case 2:
				what = "matrices were decoded from one buffer"
				kept = append(kept, oneBuffer(w)...)
			case 3, 4:
				what = "another copy was modified"
				for i, a := range arts {
					x, err := a.load(bytes.NewReader(clean[i]))
					if err != nil {
						Fail("refused", "loading object %d returned %v", i, err)
					}
					scribble(x)
				}
			case 5:
				what = "damaged streams were loaded"
				for i, a := range arts {
					for q := 1; q < 4; q++ {
						if _, err := a.load(bytes.NewReader(clean[i][:len(clean[i])*q/4])); err == nil {
							Fail("accepted", "loading %d of %d bytes reported success", len(clean[i])*q/4, len(clean[i]))
						}
					}
				}
			}
			for _, o := range kept {
				if df := diffObj(o.got, o.want); df != "" {
					Fail("altered", "%s: what was loaded changed when %s: %s", o.what, what, df)
				}
			}
			e.Probe("independence checked")
		}); v != nil {
			return v
		}
	}
	return nil
}

// sameStream decodes all objects, twice, from one stream.
func sameStream(arts []*artifact, clean [][]byte) (kept []keptObj) {
	var b bytes.Buffer
	enc := gob.NewEncoder(&b)
	for k := 0; k < 2; k++ {
		for i, a := range arts {
			if err := enc.Encode(a.obj); err != nil {
				Fail("refused", "encoding object %d returned %v", i, err)
			}
		}
	}
	dec := gob.NewDecoder(&b)
	for k := 0; k < 2; k++ {
		for i, a := range arts {
			x, err := a.decode(dec)
			if err != nil {
				Fail("refused", "decoding object %d of one stream returned %v", i, err)
			}
			kept = append(kept, keptObj{x, a.obj, fmt.Sprintf("object %d of one stream", i)})
		}
	}
	return
}

// oneBuffer decodes matrices that went through one reused buffer.
func oneBuffer(w *loadW) (kept []keptObj) {
	r := NewRng(w.Arts[0].Seed)
	buf := make([]byte, 4096)
	for k := 0; k < 3; k++ {
		f64 := r.P(.5)
		rows, cols := r.Size(8), r.Size(8)
		m := newMat(f64, rows, cols, randData(r, rows*cols, false), r.P(.5))
		b, err := m.(encoding.BinaryMarshaler).MarshalBinary()
		if err != nil {
			Fail("refused", "MarshalBinary returned %v", err)
		}
		off := r.Intn(3)
		in := buf[off : off+copy(buf[off:], b)]
		var got mat.Matrix = &mat.Dense[float32]{}
		if f64 {
			got = &mat.Dense[float64]{}
		}
		if err := got.(encoding.BinaryUnmarshaler).UnmarshalBinary(in); err != nil {
			Fail("refused", "UnmarshalBinary returned %v", err)
		}
		kept = append(kept, keptObj{got, m, fmt.Sprintf("matrix %d from one buffer", k)})
	}
	return
}

// scribble modifies every matrix of an object.
func scribble(x any) {
	switch m := x.(type) {
	case mat.Matrix:
		m.AddScalarInPlace(1)
		m.ProdScalarInPlace(-3)
	case []mat.Matrix:
		for _, v := range m {
			scribble(v)
		}
	case []*nn.Param:
		for _, p := range m {
			scribble(p.Matrix)
		}
	case nn.Model:
		for _, p := range allParams(m) {
			scribble(p.Matrix)
		}
	}
}

func init() {
	register(&Prop{
		ID: "P10", Flavours: map[string]int{"sim": 1}, Quick: 20000, Thorough: 400000,
		Gen: genLoad, New: func() any { return &loadW{} }, Exec: execLoad,
		NonTrivial: func(e *Env) bool { return e.Probes["damage reported"]+e.Probes["loaded"] > 1 },
		Rule:       "a run dumps 1-2 objects and loads them in 2-8 trials, by 1-3 goroutines at once, from streams and files with drawn fragmentation, truncation points and read errors; whatever loaded is compared again after the source was overwritten, other objects were loaded, or other copies were modified; non-trivial if at least two loads completed or were refused",
		Real:       "nn (Dump, Load, LoadFromFile), nn/*, mat, optimizers/*, encoding/gob, bufio, flatbuffers", Stub: "file system and streams (simulated), Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"fragmented, empty and data-with-error reads", "truncation at any byte", "read errors, permanent and transient", "open errors, missing files"},
	})
}
