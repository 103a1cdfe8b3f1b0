// Package fsnotify is the simulated change notification.
package fsnotify

import (
	"path"
	"syscall"

	p "github.com/fsnotify/fsnotify"

	"verif/sim/simfs"
	"verif/sim/simrt"
)

// State of the simulated notification service, for the scenarios.
type State struct {
	Open, Opened, Closed, ExtraCloses int
	Watchers                          []*Watcher
	Missed                            []string // changed, nobody was told
	Merge                             bool     // ops come combined with others
	OnDeliver                         func(w *Watcher, x any)
}

// Get the state of the run.
func Get() *State { return simrt.Val("fsnotify", func() any { return &State{} }).(*State) }

// Watcher as fsnotify.Watcher.
type Watcher struct {
	Events chan Event
	Errors chan error

	dirs   map[string]string // resolved: as given
	queue  []any
	closed bool
	done   chan struct{}
	kick   chan struct{}
}

func NewBufferedWatcher(uint) (*Watcher, error) { return NewWatcher() }

func NewWatcher() (*Watcher, error) {
	simrt.SyncPoint()
	st, disk := Get(), simfs.Get()
	if f := disk.Hit("watch"); f != nil {
		return nil, syscall.EMFILE
	}
	w := &Watcher{Events: make(chan Event), Errors: make(chan error), dirs: map[string]string{},
		done: make(chan struct{}), kick: make(chan struct{}, 1)}
	st.Open++
	st.Opened++
	st.Watchers = append(st.Watchers, w)
	if len(st.Watchers) == 1 {
		disk.OnEvent = append(disk.OnEvent, func(ev simfs.Event) {
			for _, w := range st.Watchers {
				if _, ok := w.dirs[path.Dir(ev.Name)]; ok && !w.closed {
					return
				}
				if _, ok := w.dirs[ev.Name]; ok && !w.closed {
					return
				}
			}
			st.Missed = append(st.Missed, ev.Name)
		})
	}
	disk.OnEvent = append(disk.OnEvent, func(ev simfs.Event) {
		dir, ok := w.dirs[path.Dir(ev.Name)]
		name := path.Base(ev.Name)
		if dir != "." {
			name = path.Join(dir, name)
		}
		if file, ok2 := w.dirs[ev.Name]; ok2 && !ok {
			// the file itself is watched, until it is replaced
			if name, ok = file, true; ev.Op != "write" && ev.Op != "chmod" {
				delete(w.dirs, ev.Name)
			}
		}
		if w.closed || !ok {
			return
		}
		op := map[string]p.Op{"create": p.Create, "write": p.Write, "remove": p.Remove, "rename": p.Rename, "chmod": p.Chmod}[ev.Op]
		if st.Merge && (op == p.Create || op == p.Write || op == p.Remove) {
			op |= p.Chmod // merged with another one
		}
		w.Push(p.Event{Name: name, Op: op})
	})
	simrt.GoNamed("env:fsnotify", w.pump)
	return w, nil
}

// Push an event or an error.
func (w *Watcher) Push(x any) {
	if w.closed {
		return
	}
	w.queue = append(w.queue, x)
	simrt.TrySend((chan<- struct{})(w.kick), struct{}{})
}

// Pending events.
func (w *Watcher) Pending() int { return len(w.queue) }

func (w *Watcher) pump() {
	defer func() {
		if !simrt.Killed() {
			// in the order of the real one
			simrt.Close((chan<- error)(w.Errors))
			simrt.SyncPoint()
			simrt.Close((chan<- Event)(w.Events))
		}
	}()
	for {
		if len(w.queue) == 0 {
			if simrt.Select(false, simrt.RecvCase((<-chan struct{})(w.done)), simrt.RecvCase((<-chan struct{})(w.kick))) == 0 {
				return
			}
			continue
		}
		x := w.queue[0]
		w.queue = w.queue[1:]
		var c simrt.Case
		switch v := x.(type) {
		case p.Event:
			c = simrt.SendCase((chan<- Event)(w.Events))(v)
		case error:
			c = simrt.SendCase((chan<- error)(w.Errors))(v)
		}
		if simrt.Select(false, simrt.RecvCase((<-chan struct{})(w.done)), c) == 0 {
			return
		}
		simrt.Event("fsnotify delivered %v", x)
		if st := Get(); st.OnDeliver != nil {
			st.OnDeliver(w, x)
		}
	}
}

func (w *Watcher) Add(name string) error {
	if w.closed {
		return ErrClosed
	}
	if name == "" {
		name = "."
	}
	disk := simfs.Get()
	if f := disk.Hit("watchadd"); f != nil {
		return syscall.ENOSPC
	}
	r, _ := disk.Resolve(path.Clean(name))
	if !disk.Dirs[r] && disk.Files[r] == nil {
		return syscall.ENOENT
	}
	w.dirs[r] = path.Clean(name)
	return nil
}

func (w *Watcher) AddWith(name string, _ ...any) error { return w.Add(name) }
func (w *Watcher) Remove(name string) error {
	for r, d := range w.dirs {
		if d == path.Clean(name) {
			delete(w.dirs, r)
		}
	}
	return nil
}
func (w *Watcher) WatchList() (l []string) {
	for _, d := range w.dirs {
		l = append(l, d)
	}
	return
}

func (w *Watcher) Close() error {
	if simrt.Killed() {
		return nil
	}
	st := Get()
	if w.closed {
		st.ExtraCloses++
		return nil
	}
	w.closed = true
	st.Open--
	st.Closed++
	simrt.Close((chan<- struct{})(w.done))
	return nil
}

// IsClosed tells whether Close was called.
func (w *Watcher) IsClosed() bool { return w.closed }
