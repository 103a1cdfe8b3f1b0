package scen

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"github.com/hedzr/store"

	"verif/sim/simrt"
)

var (
	errRead  = errors.New("injected read error")
	errWrite = errors.New("injected write error")
	errWatch = errors.New("injected watch error")
)

// anErr is one of the errors real sources return.
func anErr(n int) error {
	l := []error{
		errRead, io.EOF, io.ErrUnexpectedEOF, fs.ErrNotExist, context.DeadlineExceeded, errRead,
		&fs.PathError{Op: "read", Path: "conf", Err: fs.ErrPermission}, context.Canceled,
		&fs.PathError{Op: "open", Path: "conf", Err: fs.ErrNotExist}, fmt.Errorf("reading: %w", io.EOF), fs.ErrClosed,
		fmt.Errorf("reading: %w", context.DeadlineExceeded), errors.ErrUnsupported,
	}
	return l[n%len(l)]
}

func count(format string) { simrt.Count(format) }

// prov is a simulated provider; its faults are part of the program.
type prov struct {
	codec store.Codec
	pos   string

	data    map[string]store.ValPkg
	readErr error
	partial bool          // a failing read returns contents, too
	slow    time.Duration // a read takes this long
	nread   int
}

func (p *prov) GetCodec() store.Codec   { return p.codec }
func (p *prov) GetPosition() string     { return p.pos }
func (p *prov) WithCodec(c store.Codec) { p.codec = c }
func (p *prov) WithPosition(pos string) { p.pos = pos }
func (p *prov) wait() {
	p.nread++
	simrt.SyncPoint()
	if p.slow > 0 {
		simrt.Sleep(p.slow)
	}
}
func (p *prov) Read() (map[string]store.ValPkg, error) {
	p.wait()
	if p.readErr != nil {
		count("fault:provider read error")
		if p.partial {
			count("fault:provider read error with contents")
			return p.data, p.readErr
		}
		return nil, p.readErr
	}
	return p.data, nil
}

// watch mixin.
type watcher struct {
	err     error // of Watch
	slowEnd time.Duration
	bg      bool // runs a goroutine

	watched int
	closed  int
	cb      func(event any, err error)
	ctx     context.Context
	quit    chan struct{}
	onQuit  func() // the goroutine's last callback, Close waits for it
	ended   chan struct{}
}

func (w *watcher) Watch(ctx context.Context, cb func(event any, err error)) error {
	simrt.SyncPoint()
	w.watched++
	if w.err != nil {
		count("fault:watch can't be started")
		return w.err
	}
	w.cb, w.ctx = cb, ctx
	if w.bg {
		q := make(chan struct{})
		w.quit = q
		w.ended = make(chan struct{})
		simrt.GoNamed("watch of a provider", func() {
			simrt.Recv2(q)
			if w.onQuit != nil {
				w.onQuit()
			}
			simrt.Close(w.ended)
		})
	}
	return nil
}

func (w *watcher) Close() {
	simrt.SyncPoint()
	w.closed++
	if w.closed > 1 {
		fail("closed-twice", "a watcher was closed %d times", w.closed)
	}
	if w.slowEnd > 0 {
		simrt.Sleep(w.slowEnd)
	}
	if w.quit != nil && w.closed == 1 {
		simrt.Close(w.quit)
		if w.onQuit != nil {
			simrt.Recv2(w.ended)
		}
	}
}

func (w *watcher) live() bool { return w.cb != nil && w.closed == 0 }

type provW struct {
	prov
	watcher
}

// once: delivers bytes.
type once struct {
	prov
	b        []byte
	written  [][]byte
	writeErr error
	nwrite   int

	slowWrite time.Duration
}

func (p *once) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (p *once) ReadBytes() ([]byte, error) {
	p.wait()
	if p.readErr != nil {
		count("fault:provider read error")
		if p.partial {
			count("fault:provider read error with contents")
			return append([]byte{}, p.b...), p.readErr
		}
		return nil, p.readErr
	}
	return append([]byte{}, p.b...), nil
}
func (p *once) Write(data []byte) error {
	simrt.SyncPoint()
	p.nwrite++
	if p.slowWrite > 0 {
		simrt.Sleep(p.slowWrite)
	}
	if p.writeErr != nil {
		count("fault:provider write error")
		return p.writeErr
	}
	p.written = append(p.written, append([]byte{}, data...))
	p.b = append([]byte{}, data...)
	return nil
}

type onceW struct {
	once
	watcher
}

// stream: delivers key by key.
type stream struct {
	prov
	keys []string
	vals map[string]any
	i    int
}

func (p *stream) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (p *stream) Keys() ([]string, error) {
	p.wait()
	p.i = 0
	if p.readErr != nil {
		count("fault:provider key list error")
		if p.partial {
			return p.keys, p.readErr
		}
		return nil, p.readErr
	}
	return p.keys, nil
}
func (p *stream) Count() int          { return len(p.keys) }
func (p *stream) Has(key string) bool { _, ok := p.vals[key]; return ok }
func (p *stream) Next() (string, bool) {
	simrt.SyncPoint()
	if p.i >= len(p.keys) {
		return "", true
	}
	p.i++
	return p.keys[p.i-1], false
}
func (p *stream) Value(key string) (any, bool) { v, ok := p.vals[key]; return v, ok }
func (p *stream) MustValue(key string) any     { return p.vals[key] }

type streamW struct {
	stream
	watcher
}

// change is a watch event.
type change struct {
	op   store.Op
	keys []string
	vals []any
	i    int
	p    store.Provider
}

func (c *change) Next() (string, any, bool) {
	if c.i >= len(c.keys) {
		return "", nil, false
	}
	c.i++
	return c.keys[c.i-1], c.vals[c.i-1], true
}
func (c *change) Path() string             { return "" }
func (c *change) Op() store.Op             { return c.op }
func (c *change) Has(op store.Op) bool     { return c.op&op != 0 }
func (c *change) Timestamp() time.Time     { return simrt.Now() }
func (c *change) Provider() store.Provider { return c.p }
