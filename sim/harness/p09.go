package harness

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"syscall"

	"spagosim/vsim"
	"spagosim/vsim/vos"
)

// dumpW dumps objects to faulty storage.
type dumpW struct {
	Arts   []artSpec
	Trials []dumpTrial
}

// dumpTrial is one attempt of several goroutines, each dumping one object.
type dumpTrial struct {
	Dumps []dumpOne
	Disk  int // capacity of the disk in percent of what is needed, if positive
	Kill  int // the process dies at this permille of its file operations, if positive
}

type dumpOne struct {
	Art   int
	File  bool
	Fault string
	Pos   int // where, in permille
	Old   bool
}

var streamFaults = []string{"", "", "error", "partial error", "short", "late error", "nothing", "last"}
var fileFaults = []string{"", "", "create", "write", "partial write", "short write", "late write", "close", "lossy close", "op"}

func genDump(r *Rng) any {
	w := &dumpW{}
	for k := r.Range(1, 2); k > 0; k-- {
		w.Arts = append(w.Arts, genArt(r))
	}
	for k := r.Range(2, 6); k > 0; k-- {
		t := dumpTrial{}
		if r.P(.2) {
			t.Disk = r.Range(1, 120)
		}
		if r.P(.15) {
			t.Kill = r.Range(1, 1000)
		}
		for j := Pick(r, 1, 1, 1, 2, 3); j > 0; j-- {
			d := dumpOne{Art: r.Intn(len(w.Arts)), File: r.P(.6), Pos: r.Intn(1001), Old: r.P(.3)}
			if r.P(.2) {
				d.Pos = Pick(r, 0, 999, 1000)
			}
			if d.File {
				d.Fault = Pick(r, fileFaults...)
			} else {
				d.Fault = Pick(r, streamFaults...)
			}
			t.Dumps = append(t.Dumps, d)
		}
		w.Trials = append(w.Trials, t)
	}
	return w
}

var errDisk = errors.New("input/output error")

// faultWriter is a stream with scripted misbehaviour.
type faultWriter struct {
	e     *Env
	got   []byte
	ops   int
	fault string
	at    int // byte or operation
	hit   bool
}

func (f *faultWriter) Write(b []byte) (int, error) {
	vsim.Step()
	op := f.ops
	f.ops++
	fire := func() {
		f.hit = true
		f.e.Fault("stream: " + f.fault)
	}
	switch f.fault {
	case "error", "partial error":
		if len(f.got)+len(b) > f.at {
			fire()
			n := 0
			if f.fault == "partial error" {
				n = max(0, min(len(b), f.at-len(f.got)))
			}
			f.got = append(f.got, b[:n]...)
			return n, errDisk
		}
	case "short":
		if op == f.at && len(b) > 0 {
			fire()
			n := len(b) - 1 - len(b)/3
			f.got = append(f.got, b[:n]...)
			return n, nil
		}
	case "nothing":
		if op == f.at && len(b) > 0 {
			fire()
			return 0, nil
		}
	case "late error", "last":
		if op == f.at {
			fire()
			f.got = append(f.got, b...)
			return len(b), errDisk
		}
	}
	f.got = append(f.got, b...)
	return len(b), nil
}

// fileFault decides the faults of one file.
type fileFault struct {
	fault string
	at    int
	bytes int
	ops   int
	hit   bool
}

var fatalOps = map[string]bool{"create": true, "open": true, "write": true, "close": true, "sync": true, "rename": true, "truncate": true}

func (f *fileFault) next(e *Env, op string, n int) (ft vos.Fault) {
	k := f.ops
	f.ops++
	start := f.bytes
	if op == "write" {
		f.bytes += n
	}
	fire := func(x vos.Fault) vos.Fault {
		f.hit = true
		e.Fault("file: " + f.fault)
		return x
	}
	switch f.fault {
	case "create":
		if op == "create" {
			return fire(vos.Fault{Err: syscall.EACCES})
		}
	case "write", "partial write":
		if op == "write" && f.bytes > f.at {
			if f.fault == "write" {
				return fire(vos.Fault{Err: syscall.EIO})
			}
			return fire(vos.Fault{Err: syscall.EIO, Part: true, N: max(0, f.at-start)})
		}
	case "short write":
		if op == "write" && f.bytes > f.at && n > 0 && !f.hit {
			return fire(vos.Fault{Part: true, N: min(n-1, max(0, f.at-start))})
		}
	case "late write":
		if op == "write" && f.bytes > f.at && !f.hit {
			return fire(vos.Fault{Err: syscall.EIO, Part: true, N: n})
		}
	case "close":
		if op == "close" {
			return fire(vos.Fault{Err: syscall.EIO})
		}
	case "lossy close":
		if op == "close" {
			return fire(vos.Fault{Err: syscall.EDQUOT, Part: true, N: f.at})
		}
	case "op":
		if k == f.at && fatalOps[op] {
			return fire(vos.Fault{Err: syscall.EIO})
		}
	}
	return
}

func execDump(wl any, e *Env) *Violation {
	w := wl.(*dumpW)
	if len(w.Arts) == 0 || len(w.Arts) > 4 || len(w.Trials) > 12 {
		return nil
	}
	var arts []*artifact
	var clean [][]byte // a dump without faults
	var writes, ops []int
	v := e.Must("without faults", func() {
		for i, s := range w.Arts {
			a := s.build()
			f := &faultWriter{e: e}
			if err := a.dump(f); err != nil {
				Fail("refused", "dumping object %d returned %v though the stream accepted everything", i, err)
			}
			got, err := a.load(bytes.NewReader(f.got))
			if err != nil {
				Fail("unreadable", "object %d was dumped to a stream without faults, loading it returned %v", i, err)
			}
			if d := diffObj(got, a.obj); d != "" {
				Fail("differs", "object %d was dumped and loaded: %s", i, d)
			}
			vos.Cur = vos.NewFS()
			ff := &fileFault{}
			vos.Cur.Hook = func(op, name string, n int) vos.Fault { return ff.next(e, op, n) }
			if err := a.dumpFile("/data/model"); err != nil {
				Fail("refused", "dumping object %d to a file returned %v though no operation failed", i, err)
			}
			vos.Cur.Hook = nil
			checkStored(fmt.Sprintf("object %d, file without faults", i), a, "/data/model")
			arts, clean = append(arts, a), append(clean, f.got)
			writes, ops = append(writes, f.ops), append(ops, ff.ops)
		}
	}, Sequential)
	if v != nil {
		return v
	}
	for ti, t := range w.Trials {
		if len(t.Dumps) > 5 {
			continue
		}
		vos.Cur = vos.NewFS()
		files := map[string]*fileFault{}
		need, all := 0, 0
		name := func(k int) string { return fmt.Sprintf("/data/model-%d", k) }
		for k, d := range t.Dumps {
			a := modulo(d.Art, len(arts))
			if !d.File {
				continue
			}
			need += len(clean[a])
			all += ops[a]
			f := &fileFault{fault: d.Fault}
			f.at = modulo(d.Pos, 1001) * (len(clean[a]) - 1) / 1000
			if d.Fault == "op" {
				f.at = modulo(d.Pos, 1001) * ops[a] / 1001
			}
			files[name(k)] = f
			if d.Old {
				vos.Cur.Put(name(k), bytes.Repeat([]byte{0xab}, len(clean[a])+50))
			}
		}
		capacity, used := -1, 0
		if t.Disk > 0 {
			capacity = need * t.Disk / 100
		}
		kill := -1
		if t.Kill > 0 && all > 0 {
			kill = modulo(t.Kill, 1001) * all / 1001
		}
		opn := 0
		full := map[string]bool{}
		reported := make([]error, len(t.Dumps))
		done := make([]bool, len(t.Dumps))
		streams := make([]*faultWriter, len(t.Dumps))
		owner := map[string]*fileFault{} // by goroutine, as a dump may use more files
		vos.Cur.Hook = func(op, file string, n int) (ft vos.Fault) {
			f := files[file]
			for p := vsim.Path(); f == nil && p != ""; {
				f = owner[p]
				if i := strings.LastIndexAny(p, "./"); i > 0 {
					p = p[:i]
				} else {
					p = ""
				}
			}
			if f == nil {
				f = &fileFault{}
				files[file] = f
			}
			ft = f.next(e, op, n)
			if ft.Err == nil && !ft.Part && op == "write" && capacity >= 0 && used+n > capacity {
				ft = vos.Fault{Err: syscall.ENOSPC, Part: true, N: max(0, capacity-used)}
				full[file] = true
				f.hit = true
				e.Fault("file: disk full")
			}
			if op == "write" {
				if ft.Part {
					used += ft.N
				} else if ft.Err == nil {
					used += n
				}
			}
			if opn == kill {
				ft.Crash = true
				e.Fault("process killed")
			}
			opn++
			return ft
		}
		label := fmt.Sprintf("trial %d", ti)
		res := e.Sim(label, func() {
			fin := make(chan int, len(t.Dumps))
			for k, d := range t.Dumps {
				a := arts[modulo(d.Art, len(arts))]
				vsim.Go(func() {
					if d.File {
						owner[vsim.Path()] = files[name(k)]
						reported[k] = a.dumpFile(name(k))
					} else {
						i := modulo(d.Art, len(arts))
						f := &faultWriter{e: e, fault: d.Fault}
						f.at = modulo(d.Pos, 1001) * (len(clean[i]) - 1) / 1000
						switch d.Fault {
						case "short", "nothing", "late error":
							f.at = modulo(d.Pos, 1001) * writes[i] / 1001
						case "last":
							f.at = writes[i] - 1
						}
						streams[k] = f
						reported[k] = a.dump(f)
					}
					done[k] = true
					vsim.Send(fin)(1)
				})
			}
			for range t.Dumps {
				vsim.Recv(fin)
			}
			CheckLeaks("dumping")
		})
		vos.Cur.Hook = nil
		if res.Outcome != "kill" {
			if v := Abnormal(label, res); v != nil {
				return v
			}
		}
		if v := e.Must("verification of "+label, func() {
			for k, d := range t.Dumps {
				a := arts[modulo(d.Art, len(arts))]
				what := fmt.Sprintf("trial %d, dump %d", ti, k)
				if !done[k] {
					if d.File {
						// The dump was cut off: what is there is complete or refused.
						if got, err := a.loadFile(name(k)); err == nil {
							if df := diffObj(got, a.obj); df != "" {
								Fail("torn", "%s was cut off by a crash, loading the file succeeded: %s", what, df)
							}
						} else {
							e.Probe("file of a killed dump refused")
						}
					}
					continue
				}
				hit := false
				if d.File {
					hit = files[name(k)].hit
				} else {
					hit = streams[k].hit
				}
				if !d.File && (d.Fault == "nothing" || d.Fault == "short") && reported[k] == nil {
					hit = false // the rest was written later: judged by the content
				}
				if hit && reported[k] == nil {
					Fail("unreported", "%s: the storage failed (%s%s), the dump reported success", what, d.Fault, map[bool]string{true: ", disk full"}[full[name(k)]])
				}
				if !hit && reported[k] != nil {
					Fail("refused", "%s returned %v though no operation failed", what, reported[k])
				}
				if hit {
					e.Probe("fault reported")
				}
				if reported[k] != nil {
					continue
				}
				e.Probe("success verified")
				if d.File {
					checkStored(what, a, name(k))
					continue
				}
				got, err := a.load(bytes.NewReader(streams[k].got))
				if err != nil {
					Fail("unreadable", "%s reported success, loading returned %v", what, err)
				}
				if df := diffObj(got, a.obj); df != "" {
					Fail("differs", "%s reported success, loading it gives: %s", what, df)
				}
			}
		}, Sequential); v != nil {
			return v
		}
	}
	return nil
}

func checkStored(what string, a *artifact, file string) {
	b, ok := vos.Cur.Get(file)
	if !ok {
		Fail("unreadable", "%s reported success, the file does not exist", what)
	}
	got, err := a.load(bytes.NewReader(b))
	if err != nil {
		Fail("unreadable", "%s reported success, loading its %d bytes returned %v", what, len(b), err)
	}
	if d := diffObj(got, a.obj); d != "" {
		Fail("differs", "%s reported success, loading it gives: %s", what, d)
	}
	got, err = a.loadFile(file)
	if err != nil {
		Fail("unreadable", "%s reported success, loading the file returned %v", what, err)
	}
	if d := diffObj(got, a.obj); d != "" {
		Fail("differs", "%s reported success, loading the file gives: %s", what, d)
	}
}

func init() {
	register(&Prop{
		ID: "P09", Flavours: map[string]int{"sim": 1}, Quick: 20000, Thorough: 400000,
		Gen: genDump, New: func() any { return &dumpW{} }, Exec: execDump,
		NonTrivial: func(e *Env) bool {
			for k := range e.Faults {
				if e.Faults[k] > 0 {
					return true
				}
			}
			return false
		},
		Rule: "a run dumps 1-2 objects (models of every layer type, parameters with optimizer states of every strategy, matrices, embeddings) without faults and in 2-6 trials with faults at drawn bytes and operations of streams and files; non-trivial if at least one fault was injected",
		Real: "nn (Dump, DumpToFile, Load, LoadFromFile), nn/*, mat, optimizers/*, encoding/gob, bufio, flatbuffers", Stub: "file system and streams (simulated), Go scheduler, channels, sync, atomics (simulated)",
		Faults: []string{"stream write errors, partial, short and late writes", "file create, write, close errors, short and partial writes, lossy close, any operation", "disk full", "process kill during a dump"},
	})
}
