// Package vfsnotify is package fsnotify (v1.4.7, Linux) with the kernel side driven by the environment.
package vfsnotify

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"verif.local/mc/vs"
)

// Event is fsnotify.Event.
type Event struct {
	Name string
	Op   Op
}

// Op is fsnotify.Op.
type Op uint32

// Operations.
const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

func (op Op) String() string {
	var b bytes.Buffer
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD"} {
		if op&(1<<uint(i)) != 0 {
			b.WriteString("|" + n)
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return b.String()[1:]
}

func (e Event) String() string { return fmt.Sprintf("%q: %s", e.Name, e.Op.String()) }

// ErrEventOverflow is fsnotify.ErrEventOverflow.
var ErrEventOverflow = errors.New("fsnotify queue overflow")

type queued struct {
	ev  Event
	err error
	o   vs.Obj
}

// Watcher is fsnotify.Watcher.
type Watcher struct {
	Events   chan Event
	Errors   chan error
	done     chan struct{}
	doneResp chan struct{}
	paths    map[string]bool
	real     map[string]string // the file a path led to when it was added
	order    []string
	queue    []*queued
	qo       vs.Obj
	closed   bool
	co       vs.Obj
}

// World holds the watchers of an execution.
type World struct {
	Watchers []*Watcher
	FailNew  error
	FailAdd  error
}

type worldKey struct{}

// W returns the world of the current execution.
func W() *World {
	if w, ok := vs.X.Local[worldKey{}]; ok {
		return w.(*World)
	}
	w := &World{}
	vs.X.Local[worldKey{}] = w
	return w
}

type op struct {
	what  string
	ready func() bool
	exec  func()
}

func (o *op) Ready(*vs.Thread) bool { return o.ready == nil || o.ready() }
func (o *op) Exec(*vs.Thread)       { o.exec() }
func (o *op) String() string        { return o.what }

// NewWatcher is fsnotify.NewWatcher.
func NewWatcher() (*Watcher, error) {
	w := &Watcher{Events: make(chan Event), Errors: make(chan error), done: make(chan struct{}),
		doneResp: make(chan struct{}), paths: map[string]bool{}, real: map[string]string{}}
	if vs.X == nil {
		return nil, errors.New("vfsnotify: outside of an execution")
	}
	world := W()
	if world.FailNew != nil {
		return nil, world.FailNew
	}
	world.Watchers = append(world.Watchers, w)
	vs.GoEnv("inotify", w.readEvents)
	return w, nil
}

func (w *Watcher) readEvents() {
	for {
		var q *queued
		vs.Do(&op{"inotify read", func() bool { return len(w.queue) > 0 || w.closed }, func() {
			if w.closed {
				w.co.Acquire(701)
				return
			}
			q = w.queue[0]
			w.queue = append([]*queued(nil), w.queue[1:]...)
			q.o.Acquire(702)
			w.qo.Update(703)
		}})
		if q == nil {
			break
		}
		var k int
		done := vs.RecvCase((<-chan struct{})(w.done))
		if q.err != nil {
			k = vs.Select("inotify", false, vs.SendCase((chan<- error)(w.Errors))(q.err), done)
		} else {
			k = vs.Select("inotify", false, vs.SendCase((chan<- Event)(w.Events))(q.ev), done)
		}
		if k == 1 {
			break
		}
	}
	vs.CloseNow(w.Errors)
	vs.CloseNow(w.Events)
	vs.CloseNow(w.doneResp)
}

// Add is Watcher.Add.
func (w *Watcher) Add(name string) (err error) {
	name = filepath.Clean(name)
	vs.Do(&op{"inotify add", nil, func() {
		if w.closed {
			w.co.Acquire(704)
			err = errors.New("inotify instance already closed")
			return
		}
		if e := W().FailAdd; e != nil {
			err = e
			return
		}
		if _, e := os.Stat(name); e != nil {
			err = e.(*os.PathError).Err
			return
		}
		if !w.paths[name] {
			w.paths[name] = true
			w.order = append(w.order, name)
			w.real[name] = resolve(name)
		}
		w.qo.Update(705)
	}})
	return
}

// Remove is Watcher.Remove.
func (w *Watcher) Remove(name string) (err error) {
	name = filepath.Clean(name)
	vs.Do(&op{"inotify remove", nil, func() {
		w.qo.Update(706)
		if !w.paths[name] {
			err = fmt.Errorf("can't remove non-existent inotify watch for: %s", name)
			return
		}
		delete(w.paths, name)
	}})
	return
}

// Close is Watcher.Close.
func (w *Watcher) Close() error {
	if vs.Aborting() {
		return nil
	}
	was := false
	vs.Do(&op{"inotify close", nil, func() {
		was = w.closed
		if was {
			w.co.Acquire(707)
			return
		}
		w.closed = true
		w.co.Update(708)
		vs.CloseNow(w.done)
	}})
	if !was {
		vs.Recv((<-chan struct{})(w.doneResp), "inotify close")
	}
	return nil
}

// Notify queues an event about path on every watcher concerned, without a scheduling point. Like the kernel, it
// merges an event with an identical one at the tail of the queue.
func Notify(path string, o Op) {
	path = resolve(path)
	for _, w := range W().Watchers {
		if w.closed {
			continue
		}
		for _, n := range w.order {
			if !w.paths[n] {
				continue
			}
			name := n
			if w.real[n] != path {
				if w.real[n] != filepath.Dir(path) {
					continue
				}
				name = n + "/" + filepath.Base(path)
			}
			w.push(&queued{ev: Event{name, o}})
		}
	}
}

// NotifyErr queues an error on every watcher.
func NotifyErr(err error) {
	for _, w := range W().Watchers {
		if !w.closed {
			w.push(&queued{err: err})
		}
	}
}

func (w *Watcher) push(q *queued) {
	w.qo.Update(710)
	if n := len(w.queue); n > 0 && q.err == nil && w.queue[n-1].err == nil && w.queue[n-1].ev == q.ev {
		w.queue[n-1].o.Update(711)
		return
	}
	q.o.Release(712)
	w.queue = append(w.queue, q)
}

// IsClosed tells whether the watcher has been closed.
func (w *Watcher) IsClosed() bool { return w.closed }

// resolve gives the file a path leads to.
func resolve(path string) string {
	p, err := filepath.Abs(path)
	if err != nil {
		return path
	}
	if r, err := filepath.EvalSymlinks(p); err == nil {
		return r
	}
	return p
}
