package vs

import (
	"fmt"
	"reflect"
	"unsafe"
)

type item struct {
	v  interface{}
	h  uint64
	vc VC
}

type chanState struct {
	id       int
	cap      int
	buf      []item
	closed   bool
	sendObj  uint64 // hash of the last send
	recvObj  uint64 // hash of the last receive
	closeObj Obj
	nsent    int
	slots    []item // per completed receive: hash and clock (frees a slot)
	slotBase int    // index of slots[0]
}

func ptrOf[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (x *Exec) chanOf(p unsafe.Pointer, c int) *chanState {
	if p == nil {
		return nil
	}
	s := x.chans[p]
	if s == nil {
		s = &chanState{cap: c, id: len(x.chans) + 1}
		x.chans[p] = s
	}
	return s
}

// Case is one communication of a select.
type Case struct {
	ch   *chanState
	send bool
	v    interface{}
	ok   bool
	set  func(v interface{}, ok bool)
}

type selOp struct {
	cases   []*Case
	hasDef  bool
	chosen  int
	site    string
	panicky string
}

func (o *selOp) String() string {
	d := ""
	for i, c := range o.cases {
		if i > 0 {
			d += "|"
		}
		id := 0
		if c.ch != nil {
			id = c.ch.id
		}
		if c.send {
			d += fmt.Sprintf("send ch%d", id)
		} else {
			d += fmt.Sprintf("recv ch%d", id)
		}
	}
	if len(o.cases) > 1 || o.hasDef {
		d = fmt.Sprintf("select{%s}->%d", d, o.chosen)
	}
	return d + " @" + o.site
}

// partner finds threads blocked on the opposite operation of an unbuffered channel.
func (x *Exec) partners(self *Thread, c *Case) []*Thread {
	var r []*Thread
	for _, u := range x.threads {
		if u == self || u.done || u.opDone {
			continue
		}
		o, ok := u.op.(*selOp)
		if !ok {
			continue
		}
		for _, d := range o.cases {
			if d.ch == c.ch && d.send != c.send {
				r = append(r, u)
				break
			}
		}
	}
	return r
}

func (x *Exec) caseReady(self *Thread, c *Case) (ready, definite bool) {
	ch := c.ch
	if ch == nil {
		return false, false
	}
	if c.send {
		if ch.closed {
			return true, true
		}
		if ch.cap > 0 {
			r := len(ch.buf) < ch.cap
			return r, r
		}
	} else {
		if len(ch.buf) > 0 || ch.closed {
			return true, true
		}
		if ch.cap > 0 {
			return false, false
		}
	}
	for _, u := range x.threads {
		if u == self || u.done || u.opDone {
			continue
		}
		o, ok := u.op.(*selOp)
		if !ok {
			continue
		}
		for _, d := range o.cases {
			if d.ch == ch && d.send != c.send {
				return true, false
			}
		}
	}
	return false, false
}

func (o *selOp) Ready(t *Thread) bool {
	if o.hasDef {
		return true
	}
	for _, c := range o.cases {
		if r, _ := X.caseReady(t, c); r {
			return true
		}
	}
	return false
}

func (o *selOp) Exec(t *Thread) {
	x := X
	var rdy [16]int
	n := 0
	def := o.hasDef
	for i, c := range o.cases {
		if r, d := x.caseReady(t, c); r {
			rdy[n] = i
			n++
			if d {
				def = false
			}
		}
	}
	alts := n
	if def {
		alts++
	}
	k := 0
	if alts > 1 {
		k = x.ex.chooseData(x, alts, 0)
	}
	if k == n {
		// default: depends on the state of all channels
		o.chosen = -1
		h := mix(t.h, 41)
		for _, c := range o.cases {
			if c.ch != nil {
				h = mix(h, c.ch.sendObj, c.ch.recvObj)
			}
		}
		x.setHash(t, h)
		return
	}
	i := rdy[k]
	o.chosen = i
	c := o.cases[i]
	ch := c.ch
	base := mix(t.h, 42, uint64(i), b2u(c.send))
	if c.send {
		if ch.closed {
			x.setHash(t, mix(base, ch.closeObj.h))
			o.panicky = "send on closed channel"
			return
		}
		if ch.cap > 0 {
			slot := ch.nsent - ch.cap
			var sh uint64
			if slot >= 0 {
				s := ch.slots[slot-ch.slotBase]
				sh = s.h
				t.vc = t.vc.join(s.vc)
			}
			h := mix(base, ch.sendObj, sh)
			ch.sendObj = h
			x.setHash(t, h)
			ch.buf = append(ch.buf, item{c.v, h, t.vc.copyOf()})
			ch.nsent++
			x.tick(t)
			return
		}
	} else {
		if len(ch.buf) > 0 {
			it := ch.buf[0]
			ch.buf = append([]item(nil), ch.buf[1:]...)
			h := mix(base, ch.recvObj, it.h)
			ch.recvObj = h
			x.setHash(t, h)
			t.vc = t.vc.join(it.vc)
			ch.slots = append(ch.slots, item{nil, h, t.vc.copyOf()})
			x.tick(t)
			c.v, c.ok = it.v, true
			if c.set != nil {
				c.set(it.v, true)
			}
			return
		}
		if ch.closed {
			x.setHash(t, mix(base, ch.closeObj.h, ch.recvObj))
			t.vc = t.vc.join(ch.closeObj.vc)
			c.v, c.ok = nil, false
			if c.set != nil {
				c.set(nil, false)
			}
			return
		}
	}
	// rendezvous
	ps := x.partners(t, c)
	p := ps[0]
	if len(ps) > 1 {
		p = ps[x.ex.chooseData(x, len(ps), 0)]
	}
	po := p.op.(*selOp)
	var pc *Case
	for j, d := range po.cases {
		if d.ch == ch && d.send != c.send {
			po.chosen = j
			pc = d
			break
		}
	}
	snd, rcv, st, rt := c, pc, t, p
	if pc.send {
		snd, rcv, st, rt = pc, c, p, t
	}
	h := mix(st.h, rt.h, 43, uint64(o.chosen), uint64(po.chosen), ch.sendObj)
	if !c.send {
		h = mix(st.h, rt.h, 43, uint64(po.chosen), uint64(o.chosen), ch.sendObj)
	}
	ch.sendObj = h
	ch.recvObj = h
	x.setHash(st, mix(h, 1))
	x.setHash(rt, mix(h, 2))
	j := st.vc.copyOf().join(rt.vc)
	st.vc = j.copyOf()
	rt.vc = j
	x.tick(st)
	x.tick(rt)
	rcv.v, rcv.ok = snd.v, true
	if rcv.set != nil {
		rcv.set(snd.v, true)
	}
	ch.nsent++
	p.opDone = true
	p.steps++
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (x *Exec) doSel(o *selOp) int {
	if len(o.cases) > 16 {
		panic("vs: select with more than 16 cases")
	}
	x.do(o)
	if o.panicky != "" {
		panic(chanError(o.panicky))
	}
	return o.chosen
}

type chanError string

func (e chanError) Error() string { return string(e) }
func (e chanError) RuntimeError() {}

// SendTo sends v on ch: SendTo(ch, site)(v).
func SendTo[T any](ch chan<- T, site string) func(T) {
	return func(v T) {
		x := X
		if x == nil {
			ch <- v
			return
		}
		p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		x.doSel(&selOp{cases: []*Case{{ch: x.chanOf(p, cap(ch)), send: true, v: v}}, site: site})
	}
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T, site string) (v T, ok bool) {
	x := X
	if x == nil {
		v, ok = <-ch
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	c := &Case{ch: x.chanOf(p, cap(ch))}
	x.doSel(&selOp{cases: []*Case{c}, site: site})
	if c.v != nil {
		v = c.v.(T)
	}
	return v, c.ok
}

// Recv receives from ch.
func Recv[T any](ch <-chan T, site string) T {
	v, _ := Recv2(ch, site)
	return v
}

type closeOp struct {
	ch   *chanState
	site string
	err  string
}

func (o *closeOp) Ready(*Thread) bool { return true }
func (o *closeOp) String() string     { return fmt.Sprintf("close ch%d @%s", o.ch.id, o.site) }
func (o *closeOp) Exec(t *Thread) {
	x := X
	if o.ch.closed {
		o.err = "close of closed channel"
		x.setHash(t, mix(t.h, 45, o.ch.closeObj.h))
		return
	}
	x.setHash(t, mix(t.h, 44, o.ch.sendObj))
	o.ch.closed = true
	o.ch.closeObj.h = t.h
	o.ch.closeObj.vc = t.vc.copyOf()
	o.ch.sendObj = t.h
	x.tick(t)
}

// Close closes ch.
func Close[T any](ch chan<- T, site string) {
	x := X
	if x == nil {
		close(ch)
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		panic(chanError("close of nil channel"))
	}
	o := &closeOp{ch: x.chanOf(p, cap(ch)), site: site}
	x.do(o)
	if o.err != "" {
		panic(chanError(o.err))
	}
}

type lenOp struct {
	ch *chanState
	n  int
}

func (o *lenOp) Ready(*Thread) bool { return true }
func (o *lenOp) String() string     { return fmt.Sprintf("len ch%d = %d", o.ch.id, o.n) }
func (o *lenOp) Exec(t *Thread) {
	o.n = len(o.ch.buf)
	X.setHash(t, mix(t.h, 46, o.ch.sendObj, o.ch.recvObj, uint64(o.n)))
}

// Len is len(ch), for a channel of any direction.
func Len(ch interface{}) int {
	x := X
	v := reflect.ValueOf(ch)
	if x == nil || v.IsNil() {
		return v.Len()
	}
	o := &lenOp{ch: x.chanOf(v.UnsafePointer(), v.Cap())}
	x.do(o)
	return o.n
}

// RC is a receive case of a select.
type RC[T any] struct {
	c   Case
	nat <-chan T
	Val T
	OK  bool
}

// RecvCase makes a receive case.
func RecvCase[T any](ch <-chan T) *RC[T] {
	r := &RC[T]{nat: ch}
	if X == nil {
		return r
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	r.c.ch = X.chanOf(p, cap(ch))
	r.c.set = func(v interface{}, ok bool) {
		if v != nil {
			r.Val = v.(T)
		}
		r.OK = ok
	}
	return r
}

// SC is a send case of a select.
type SC[T any] struct {
	c   Case
	nat chan<- T
	v   T
}

// SendCase makes a send case: SendCase(ch)(v).
func SendCase[T any](ch chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] {
		s := &SC[T]{nat: ch, v: v}
		if X == nil {
			return s
		}
		p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		s.c.ch = X.chanOf(p, cap(ch))
		s.c.send = true
		s.c.v = v
		return s
	}
}

type selCase interface{ base() *Case }

func (r *RC[T]) base() *Case { return &r.c }
func (s *SC[T]) base() *Case { return &s.c }

// Select performs a select; it returns the index of the case taken, -1 for default.
func Select(site string, hasDefault bool, cases ...selCase) int {
	x := X
	if x == nil {
		return nativeSelect(hasDefault, cases)
	}
	if len(cases) == 0 && !hasDefault {
		BlockForever()
	}
	o := &selOp{hasDef: hasDefault, site: site}
	for _, c := range cases {
		o.cases = append(o.cases, c.base())
	}
	return x.doSel(o)
}

// Iter iterates over a channel.
type Iter[T any] struct {
	ch   <-chan T
	site string
}

// ChanIter starts `for range ch`.
func ChanIter[T any](ch <-chan T, site string) *Iter[T] { return &Iter[T]{ch, site} }

// ChanIter2 starts `for v := range ch`.
func ChanIter2[T any](ch <-chan T, site string) (*Iter[T], T) {
	var z T
	return &Iter[T]{ch, site}, z
}

// Next receives the next value into p (which may be nil); false when the channel is closed and drained.
func (i *Iter[T]) Next(p *T) bool {
	v, ok := Recv2(i.ch, i.site)
	if ok && p != nil {
		*p = v
	}
	return ok
}
