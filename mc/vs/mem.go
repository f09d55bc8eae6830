package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"unsafe"
)

type access struct {
	tid  int
	clk  uint32
	site string
	name string
}

type cell struct {
	w      access
	hasW   bool
	reads  []access
	h, acc uint64  // race-directed exploration: history of the accesses
	busy   *Thread // the thread that is writing the map
}

// Racy is the set of program locations ("file:line") that took part in a data race in an earlier exploration of the
// scenario. Accesses there are scheduling points: a program that synchronises everything it shares has none, and is
// explored at its synchronisation operations only.
var Racy map[string]bool

// memOp is an access at a racy location.
type memOp struct {
	p     unsafe.Pointer
	write bool
	phase int // 0: access; 1: a map write begins; 2: it ends
	isMap bool
	site  string
}

func (o *memOp) Ready(*Thread) bool { return true }

func (o *memOp) String() string {
	k := "read"
	if o.write {
		k = "write"
	}
	return k + " (racy) at " + o.site
}

func (o *memOp) Exec(t *Thread) {
	x := X
	c := x.cells[o.p]
	if c == nil {
		c = &cell{}
		x.cells[o.p] = c
	}
	x.setHash(t, mix(t.h, 141, uint64(o.phase), c.h))
	if !o.write {
		c.acc += mix(t.h, t.cid)
	} else {
		x.setHash(t, mix(t.h, 142, c.acc))
		c.h, c.acc = t.h, 0
	}
	if !o.isMap {
		return
	}
	if c.busy != nil && c.busy != t {
		// what the Go runtime does when it notices; it always may
		x.mapClash = "fatal error: concurrent map access: " + o.site + " while the map is being written by " + c.busy.Name
		return
	}
	switch {
	case o.phase == 1:
		c.busy = t
	case o.phase == 2:
		c.busy = nil
	}
}

// point is a scheduling point at a racy location.
func (x *Exec) point(p unsafe.Pointer, site string, write, isMap bool) {
	if x.racy == nil || !x.racy[site] || x.aborting {
		return
	}
	o := &memOp{p: p, write: write, isMap: isMap, site: site}
	if isMap && write {
		o.phase = 1
		x.do(o)
		x.clash()
		o = &memOp{p: p, write: write, isMap: isMap, site: site, phase: 2}
	}
	x.do(o)
	x.clash()
}

// clash ends the program if its maps were accessed concurrently (it cannot recover from that).
func (x *Exec) clash() {
	if x.mapClash == "" {
		return
	}
	x.Crash = x.mapClash
	x.end()
	<-x.cur.wake
	runtime.Goexit()
}

func (x *Exec) race(kind string, a access, t *Thread, site string) {
	s1, s2 := a.site, site
	if s2 < s1 {
		s1, s2 = s2, s1
	}
	key := s1 + "|" + s2
	if x.raceSeen[key] {
		return
	}
	x.raceSeen[key] = true
	m := fmt.Sprintf("data race (%s): %s and %s", kind, s1, s2)
	x.Races = append(x.Races, m)
	x.raceSites = append(x.raceSites, s1, s2)
	if x.wantTrace {
		x.note(fmt.Sprintf("RACE %s: %s by %s, %s by %s", kind, a.site, a.name, site, t.Name))
	}
}

func (x *Exec) read(p unsafe.Pointer, site string) {
	t := x.cur
	c := x.cells[p]
	if c == nil {
		c = &cell{}
		x.cells[p] = c
	}
	if c.hasW && c.w.tid != t.idx && t.vc.at(c.w.tid) < c.w.clk {
		x.race("write/read", c.w, t, site)
	}
	for i := range c.reads {
		if c.reads[i].tid == t.idx {
			c.reads[i] = access{t.idx, t.vc.at(t.idx), site, t.Name}
			return
		}
	}
	c.reads = append(c.reads, access{t.idx, t.vc.at(t.idx), site, t.Name})
}

func (x *Exec) write(p unsafe.Pointer, site string) {
	t := x.cur
	c := x.cells[p]
	if c == nil {
		c = &cell{}
		x.cells[p] = c
	}
	if c.hasW && c.w.tid != t.idx && t.vc.at(c.w.tid) < c.w.clk {
		x.race("write/write", c.w, t, site)
	}
	for _, r := range c.reads {
		if r.tid != t.idx && t.vc.at(r.tid) < r.clk {
			x.race("read/write", r, t, site)
		}
	}
	c.reads = c.reads[:0]
	c.w = access{t.idx, t.vc.at(t.idx), site, t.Name}
	c.hasW = true
}

// R records a read of *p.
func R[T any](p *T, site string) *T {
	if x := X; x != nil && p != nil && !x.aborting {
		x.point(unsafe.Pointer(p), site, false, false)
		x.read(unsafe.Pointer(p), site)
	}
	return p
}

// W records a write of *p.
func W[T any](p *T, site string) *T {
	if x := X; x != nil && p != nil && !x.aborting {
		x.point(unsafe.Pointer(p), site, true, false)
		x.write(unsafe.Pointer(p), site)
	}
	return p
}

func mapPtr(m interface{}) unsafe.Pointer {
	v := reflect.ValueOf(m)
	if !v.IsValid() || v.Kind() != reflect.Map {
		return nil
	}
	return v.UnsafePointer()
}

// MR records a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site string) M {
	if x := X; x != nil && m != nil && !x.aborting {
		x.point(mapPtr(m), site, false, true)
		x.read(mapPtr(m), site)
	}
	return m
}

// MD records a deletion in map m.
func MD[M ~map[K]V, K comparable, V any](m M, site string) M {
	if x := X; x != nil && m != nil && !x.aborting {
		x.point(mapPtr(m), site, true, true)
		x.write(mapPtr(m), site)
	}
	return m
}

type mapOrder struct {
	seq  map[interface{}]int
	next int
	keep interface{}
}

// MW records a write of key k of map m; it returns k.
func MW[M ~map[K]V, K comparable, V any](m M, k K, site string) K {
	x := X
	if x == nil || m == nil || x.aborting {
		return k
	}
	p := mapPtr(m)
	x.point(p, site, true, true)
	x.write(p, site)
	mo := x.maps[p]
	if mo == nil {
		mo = &mapOrder{seq: map[interface{}]int{}, keep: m}
		x.maps[p] = mo
	}
	if _, ok := m[k]; !ok {
		mo.next++
		mo.seq[k] = mo.next
	}
	return k
}

// Keys returns the keys of m in an order chosen by the explorer (map iteration order is unspecified).
func Keys[M ~map[K]V, K comparable, V any](m M, site string) []K {
	x := X
	if x != nil && m != nil {
		x.point(mapPtr(m), site, false, true)
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if x == nil {
		return keys
	}
	if m != nil && !x.aborting {
		x.read(mapPtr(m), site)
	}
	if len(keys) < 2 {
		return keys
	}
	mo := x.maps[mapPtr(m)]
	sort.Slice(keys, func(i, j int) bool {
		a, b := interface{}(keys[i]), interface{}(keys[j])
		if mo != nil && mo.seq[a] != mo.seq[b] {
			return mo.seq[a] < mo.seq[b]
		}
		switch va := a.(type) {
		case string:
			return va < b.(string)
		}
		ra, rb := reflect.ValueOf(a), reflect.ValueOf(b)
		switch ra.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return ra.Int() < rb.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return ra.Uint() < rb.Uint()
		case reflect.Ptr, reflect.Chan:
			return false
		}
		return fmt.Sprint(a) < fmt.Sprint(b)
	})
	if x.aborting {
		return keys
	}
	// choose a permutation: selection order; limited to small maps, otherwise rotations only
	if len(keys) <= 3 {
		for i := 0; i+1 < len(keys); i++ {
			c := x.ex.chooseData(x, len(keys)-i, 1)
			x.Mix(x.cur, 71, uint64(c))
			keys[i], keys[i+c] = keys[i+c], keys[i]
		}
	} else {
		c := x.ex.chooseData(x, 2, 1)
		x.Mix(x.cur, 71, uint64(c))
		if c == 1 {
			for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}
