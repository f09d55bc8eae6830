package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

// element is one value that can be written to and read from a buffer.
type element struct {
	what  string
	write func(*pg.WriteBuffer)
	enc   []byte
	read  func(*pg.ReadBuffer) (interface{}, error)
	want  interface{}
}

func enc32(v ...int32) []byte {
	var b w
	for _, n := range v {
		b.i32(n)
	}
	return b.Bytes()
}

func enc16(v ...int16) []byte {
	var b w
	for _, n := range v {
		b.i16(n)
	}
	return b.Bytes()
}

var elements = func() (r []*element) {
	for _, v := range []byte{0, 1, 255} {
		v := v
		r = append(r, &element{fmt.Sprint("byte ", v), func(b *pg.WriteBuffer) { b.WriteByte(v) }, []byte{v}, func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadByte() }, v})
	}
	for _, v := range []int32{0, 1, -1, 2147483647, -2147483648, 0x01020304, -0x01020304} {
		v := v
		r = append(r, &element{fmt.Sprint("int32 ", v), func(b *pg.WriteBuffer) { b.WriteInt32(v) }, enc32(v), func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadInt32() }, v})
	}
	for _, v := range []int16{0, 1, -1, 32767, -32768, 0x0102} {
		v := v
		r = append(r, &element{fmt.Sprint("int16 ", v), func(b *pg.WriteBuffer) { b.WriteInt16(v) }, enc16(v), func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadInt16() }, v})
	}
	for _, v := range []string{"", "a", "héllo\xff", string(bytes.Repeat([]byte{'s'}, 300))} {
		v := v
		r = append(r, &element{fmt.Sprintf("string %.9q", v), func(b *pg.WriteBuffer) { b.WriteString(v) }, append([]byte(v), 0), func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadString() }, v})
	}
	for _, v := range [][]byte{{}, {0}, {1, 2, 255}, bytes.Repeat([]byte{0}, 200)} {
		v := v
		r = append(r, &element{fmt.Sprintf("%d bytes", len(v)), func(b *pg.WriteBuffer) { b.WriteBytes(v) }, v, func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadBytes(len(v)) }, v})
	}
	for _, v := range [][]int32{{}, {-2}, {0x01020304, 2147483647, -2147483648}} {
		v := v
		r = append(r, &element{fmt.Sprint("int32s ", v), func(b *pg.WriteBuffer) { b.WriteInt32Array(v) }, enc32(v...), func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadInt32Array(len(v)) }, v})
	}
	for _, v := range [][]int16{{}, {-2}, {0x0102, 32767, -32768}} {
		v := v
		r = append(r, &element{fmt.Sprint("int16s ", v), func(b *pg.WriteBuffer) { b.WriteInt16Array(v) }, enc16(v...), func(b *pg.ReadBuffer) (interface{}, error) { return b.ReadInt16Array(len(v)) }, v})
	}
	return
}()

func same(a, b interface{}) bool {
	if reflect.DeepEqual(a, b) {
		return true
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	return va.IsValid() && vb.IsValid() && va.Type() == vb.Type() && va.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0
}

// anyRead performs an arbitrary read on a buffer with the given contents and compares it with the reference semantics;
// it returns the contents afterwards.
func anyRead(c *x.C, b *pg.ReadBuffer, have []byte) []byte {
	op := c.Choose(7, "read")
	n := 0
	if op >= 4 {
		n = c.PickInt("size", 0, 1, 2, 3, 4, 7, -1, -4, 1<<61, 1<<62, 1<<63-1, -1<<63, 1<<62+1, 1<<63-2)
	}
	need := map[int]int{0: 1, 1: 4, 2: 2, 4: n, 5: 4, 6: 2}[op]
	if op >= 5 {
		switch {
		case n < 0 || n > 1000:
			need = -1
		default:
			need *= n
		}
	}
	if op == 3 {
		need = bytes.IndexByte(have, 0) + 1
		if need == 0 {
			need = -1
		}
	}
	ok := need >= 0 && need <= len(have)
	var got, want interface{}
	var err error
	switch op {
	case 0:
		got, err = b.ReadByte()
	case 1:
		got, err = b.ReadInt32()
	case 2:
		got, err = b.ReadInt16()
	case 3:
		got, err = b.ReadString()
	case 4:
		got, err = b.ReadBytes(n)
	case 5:
		got, err = b.ReadInt32Array(n)
	case 6:
		got, err = b.ReadInt16Array(n)
	}
	c.Step(1)
	what := []string{"ReadByte", "ReadInt32", "ReadInt16", "ReadString", "ReadBytes", "ReadInt32Array", "ReadInt16Array"}[op]
	if ok != (err == nil) {
		c.Failf("%s(%d) on a buffer % x returned the error %v", what, n, have, err)
	}
	rest := have
	if ok {
		rest = have[need:]
		cu := &cur{b: have}
		switch op {
		case 0:
			want = byte(cu.u(1))
		case 1:
			want = cu.i32()
		case 2:
			want = cu.i16()
		case 3:
			want = cu.str()
		case 4:
			want = have[:need]
		case 5:
			a := []int32{}
			for i := 0; i < n; i++ {
				a = append(a, cu.i32())
			}
			want = a
		case 6:
			a := []int16{}
			for i := 0; i < n; i++ {
				a = append(a, cu.i16())
			}
			want = a
		}
		if !same(got, want) {
			c.Failf("%s(%d) on a buffer % x returned %v instead of %v", what, n, have, got, want)
		}
	}
	if !bytes.Equal(*b, rest) || b.Len() != len(rest) {
		c.Failf("%s(%d) on a buffer % x left % x instead of % x", what, n, have, []byte(*b), rest)
	}
	return rest
}

func init() {
	x.Add(&x.Space{Name: "buffer-roundtrip", Props: []string{"W05"}, What: "every sequence of up to 4 (5) writes of 30 values of every primitive type and the matching reads",
		Body: func(c *x.C) {
			var b pg.WriteBuffer
			var es []*element
			var want []byte
			for n := 1 + c.Choose(c.N(4, 5), "writes"); n > 0; n-- {
				e := elements[c.Choose(len(elements), "element")]
				es = append(es, e)
				e.write(&b)
				want = append(want, e.enc...)
				if !bytes.Equal(b, want) || b.Len() != len(want) {
					c.Failf("after writing %s the buffer is %s instead of %s", e.what, short(b), short(want))
				}
			}
			r := pg.ReadBuffer(b)
			for _, e := range es {
				got, err := e.read(&r)
				if err != nil || !same(got, e.want) {
					c.Failf("%s was read back as %v, %v", e.what, got, err)
				}
				want = want[len(e.enc):]
				if !bytes.Equal(r, want) {
					c.Failf("after reading %s the buffer is %s instead of %s", e.what, short(r), short(want))
				}
			}
			if r.Len() != 0 {
				c.Failf("%d bytes are left", r.Len())
			}
			c.Step(2 * len(es))
			if c.Sampling() {
				for _, e := range es {
					c.Note("%s", e.what)
				}
			}
		}, Depth: 3})
	x.Add(&x.Space{Name: "buffer-reads", Props: []string{"W05"}, What: "every buffer of up to 4 (6) bytes over an alphabet of 8, every sequence of 2 reads with every size of interest",
		Body: func(c *x.C) {
			have := bytesBody(c, c.N(4, 6))
			b := pg.ReadBuffer(append([]byte(nil), have...))
			rest := anyRead(c, &b, have)
			anyRead(c, &b, rest)
		}})
	x.Add(&x.Space{Name: "buffer-reads-deep", Props: []string{"W05"}, What: "a few buffers, every sequence of 4 (5) reads with every size of interest",
		Body: func(c *x.C) {
			have := [][]byte{{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0, 11}, {0, 0, 0, 0, 'a', 'b', 0, 255, 255, 255}, {'a', 0}, {'n', 'o', 'n', 'e'}}[c.Choose(4, "buffer")]
			b := pg.ReadBuffer(append([]byte(nil), have...))
			for i := c.N(4, 5); i > 0; i-- {
				have = anyRead(c, &b, have)
			}
		}, Depth: 3})
}
