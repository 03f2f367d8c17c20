//go:build go1.21

package simos

import (
	"io"

	"github.com/asap2Go/calibrationReader/verifsim/simsync"
)

// A pipe as io.Pipe makes it, whose two sides wait in the simulator.
type pipe struct {
	mu         simsync.Mutex
	wr         simsync.Mutex // one write at a time
	cond       *simsync.Cond
	b          []byte
	has        bool
	rerr, werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = simsync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.has:
			n := copy(b, p.b)
			p.b = p.b[n:]
			if len(p.b) == 0 {
				p.has = false
				p.cond.Broadcast()
			}
			return n, nil
		case p.werr != nil:
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	defer r.p.mu.Unlock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.b, p.has = b, true
	p.cond.Broadcast()
	for p.has && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.b)
	if !p.has {
		return n, nil
	}
	p.has = false
	if p.werr != nil {
		return n, io.ErrClosedPipe
	}
	return n, p.rerr
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.cond.Broadcast()
	return nil
}
