package vs

import "unsafe"

// Push puts v into the buffer of ch without a scheduling point (timers, environment devices); false if it is full.
func Push[T any](ch chan T, v T) bool {
	x := X
	if x == nil {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	}
	s := x.chanOf(ptrOf(ch), cap(ch))
	if s.closed || len(s.buf) >= s.cap {
		return false
	}
	t := x.cur
	slot := s.nsent - s.cap
	var sh uint64
	if slot >= 0 {
		sh = s.slots[slot].h
		t.vc = t.vc.join(s.slots[slot].vc)
	}
	h := mix(t.h, 47, s.sendObj, sh)
	s.sendObj = h
	x.setHash(t, h)
	s.buf = append(s.buf, item{v, h, t.vc.copyOf()})
	s.nsent++
	x.tick(t)
	return true
}

// Drain empties the buffer of ch without a scheduling point.
func Drain[T any](ch chan T) bool {
	x := X
	if x == nil {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	s := x.chanOf(ptrOf(ch), cap(ch))
	if len(s.buf) == 0 {
		return false
	}
	t := x.cur
	it := s.buf[0]
	s.buf = append([]item(nil), s.buf[1:]...)
	h := mix(t.h, 48, s.recvObj, it.h)
	s.recvObj = h
	x.setHash(t, h)
	t.vc = t.vc.join(it.vc)
	s.slots = append(s.slots, item{nil, h, t.vc.copyOf()})
	x.tick(t)
	return true
}

// CloseNow closes ch without a scheduling point.
func CloseNow[T any](ch chan T) {
	x := X
	if x == nil {
		close(ch)
		return
	}
	o := &closeOp{ch: x.chanOf(ptrOf(ch), cap(ch)), site: "now"}
	o.Exec(x.cur)
}

// IsClosed tells, without a scheduling point, whether ch has been closed; Done channels only.
func IsClosed[T any](ch <-chan T) bool {
	x := X
	if x == nil {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return false
	}
	return x.chanOf(p, cap(ch)).closed
}

// JoinClose makes what happened before the close of ch visible to the current thread.
func JoinClose[T any](ch <-chan T) {
	x := X
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if x == nil || p == nil {
		return
	}
	s := x.chanOf(p, cap(ch))
	x.setHash(x.cur, mix(x.cur.h, 49, s.closeObj.h))
	x.cur.vc = x.cur.vc.join(s.closeObj.vc)
}

var resets []func()

// OnReset registers a function that restores package-level state before each execution.
func OnReset(f func()) { resets = append(resets, f) }

// Reset restores package-level state.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Zero sets *p to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ZeroKV returns zero values of the key and element types of m.
func ZeroKV[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// Delivered returns how many values have been sent on ch so far, without a scheduling point.
func Delivered[T any](ch chan T) int {
	x := X
	s := x.chanOf(ptrOf(ch), cap(ch))
	if !x.aborting {
		x.Mix(x.cur, 51, s.sendObj)
	}
	return s.nsent
}
