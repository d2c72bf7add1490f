// Package vio replaces io.Pipe, whose two ends synchronize goroutines.
package vio

import (
	"io"

	"spagosim/vsim/vsync"
)

type pipe struct {
	mu         vsync.Mutex
	cond       *vsync.Cond
	turn       vsync.Mutex // one write at a time
	data       []byte
	full       bool
	rerr, werr error // of the reader's and of the writer's end
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe creates a synchronous in-memory pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = vsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.full:
			n := copy(b, p.data)
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.full = false
				p.cond.Broadcast()
			}
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.turn.Lock()
	defer p.turn.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.data, p.full = b, true
	p.cond.Broadcast()
	for p.full && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.data)
	p.data = nil
	switch {
	case !p.full:
		return n, nil
	case p.werr != nil:
		p.full = false
		return n, io.ErrClosedPipe
	}
	p.full = false
	return n, p.rerr
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	return nil
}
