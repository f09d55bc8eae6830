package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"runtime/debug"
	"strings"

	"github.com/lib/pq/oid"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

// lengths of strings and lists around the sizes at which implementations change their minds
var lengths = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025,
	2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 1 << 17, 1<<18 + 1}

func long(n int) string {
	return strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz-", n/37+1)[:n]
}

// large makes the message of the kind with one long string or list in the given place; nil if there is no such place or
// the protocol cannot express it.
func large(k *kind, place, n int) pg.Message {
	if place == 0 { // the first string or byte array
		switch k.name {
		case "AuthenticationRequest":
			return &pg.AuthenticationGSSContinueMessage{Data: []byte(long(n))}
		case "CommandComplete":
			return &pg.CommandCompleteMessage{Tag: long(n)}
		case "DataRow":
			return &pg.DataRowMessage{Values: [][]byte{[]byte(long(n)), nil, {1}}}
		case "ErrorResponse":
			return &pg.ErrorResponseMessage{Fields: []*pg.MessageField{{Type: 'S', Value: long(n)}, {Type: 'C', Value: "x"}}}
		case "NoticeResponse":
			return &pg.NoticeResponseMessage{Fields: []*pg.MessageField{{Type: 'S', Value: long(n)}, {Type: 'C', Value: "x"}}}
		case "NegotiateProtocolVersion":
			return &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: 1, UnrecognizedOptions: []string{long(n), "b"}}
		case "ParameterStatus":
			return &pg.ParameterStatusMessage{Name: long(n), Value: "v"}
		case "Password":
			return &pg.PasswordMessage{Password: long(n)}
		case "Query":
			return &pg.QueryMessage{Query: long(n)}
		case "RowDescription":
			f := *descriptors[1]
			f.Name = long(n)
			return &pg.RowDescriptionMessage{Fields: []*pg.FieldDescriptor{&f, descriptors[0]}}
		case "Startup":
			return &pg.StartupMessage{ProtocolVersion: 196608, Parameters: []*pg.StartupMessageParameter{{Name: long(n), Value: "v"}, {Name: "a", Value: "b"}}}
		case "Generic":
			return &pg.GenericMessage{Type: 'd', Body: []byte(long(n))}
		}
		return nil
	}
	if place == 1 { // the last one
		switch k.name {
		case "DataRow":
			return &pg.DataRowMessage{Values: [][]byte{{}, nil, []byte(long(n))}}
		case "ErrorResponse":
			return &pg.ErrorResponseMessage{Fields: []*pg.MessageField{{Type: 'S', Value: ""}, {Type: 'C', Value: long(n)}}}
		case "NoticeResponse":
			return &pg.NoticeResponseMessage{Fields: []*pg.MessageField{{Type: 'S', Value: ""}, {Type: 'C', Value: long(n)}}}
		case "NegotiateProtocolVersion":
			return &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: 1, UnrecognizedOptions: []string{"", long(n)}}
		case "ParameterStatus":
			return &pg.ParameterStatusMessage{Name: "n", Value: long(n)}
		case "RowDescription":
			f := *descriptors[2]
			f.Name = long(n)
			return &pg.RowDescriptionMessage{Fields: []*pg.FieldDescriptor{descriptors[0], &f}}
		case "Startup":
			return &pg.StartupMessage{ProtocolVersion: 196608, Parameters: []*pg.StartupMessageParameter{{Name: "a", Value: "b"}, {Name: "n", Value: long(n)}}}
		}
		return nil
	}
	// a long list
	if n > 70000 {
		return nil
	}
	switch k.name {
	case "DataRow":
		if n > 32767 {
			return nil
		}
		m := &pg.DataRowMessage{}
		for i := 0; i < n; i++ {
			m.Values = append(m.Values, [][]byte{nil, {}, {byte(i)}, {byte(i >> 8), byte(i)}}[i%4])
		}
		return m
	case "RowDescription":
		if n > 32767 {
			return nil
		}
		m := &pg.RowDescriptionMessage{}
		for i := 0; i < n; i++ {
			f := *descriptors[i%len(descriptors)]
			f.ColumnIndex = int16(i)
			m.Fields = append(m.Fields, &f)
		}
		return m
	case "ErrorResponse", "NoticeResponse":
		var fs []*pg.MessageField
		for i := 0; i < n; i++ {
			fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(1 + i%255), Value: long(i % 3)})
		}
		if k.name[0] == 'E' {
			return &pg.ErrorResponseMessage{Fields: fs}
		}
		return &pg.NoticeResponseMessage{Fields: fs}
	case "NegotiateProtocolVersion":
		m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: 3}
		for i := 0; i < n; i++ {
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, long(i%3))
		}
		return m
	case "Startup":
		m := &pg.StartupMessage{ProtocolVersion: 196608}
		for i := 0; i < n; i++ {
			m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: long(1 + i%3), Value: long(i % 2)})
		}
		return m
	}
	return nil
}

// number makes the message of the kind with the given number in the given numeric field; nil if there is no such field.
func number(k *kind, field int, v int32) (m pg.Message, bits int) {
	switch k.name {
	case "BackendKeyData":
		switch field {
		case 0:
			return &pg.BackendKeyDataMessage{ProcessID: v, Key: 5}, 32
		case 1:
			return &pg.BackendKeyDataMessage{ProcessID: 5, Key: v}, 32
		}
	case "NegotiateProtocolVersion":
		if field == 0 {
			return &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: v, UnrecognizedOptions: []string{"x"}}, 32
		}
	case "AuthenticationRequest":
		if field == 0 {
			m := &pg.AuthenticationMD5PasswordMessage{}
			binary.BigEndian.PutUint32(m.Salt[:], uint32(v))
			return m, 32
		}
	case "Startup":
		if field == 0 && v>>16 != 1234 {
			return &pg.StartupMessage{ProtocolVersion: v, Parameters: []*pg.StartupMessageParameter{{Name: "a", Value: "b"}}}, 32
		}
	case "RowDescription":
		f := &pg.FieldDescriptor{Name: "f", TableOID: 1, ColumnIndex: 2, DataTypeOID: 3, DataTypeSize: 4, DataTypeModifier: 5, Format: 1}
		m := &pg.RowDescriptionMessage{Fields: []*pg.FieldDescriptor{f, descriptors[0]}}
		switch field {
		case 0:
			f.TableOID = oid.Oid(uint32(v))
			return m, 32
		case 1:
			f.DataTypeOID = oid.Oid(uint32(v))
			return m, 32
		case 2:
			f.DataTypeModifier = v
			return m, 32
		case 3:
			f.ColumnIndex = int16(v)
			return m, 16
		case 4:
			f.DataTypeSize = int16(v)
			return m, 16
		case 5:
			f.Format = pg.DataFormat(int16(v))
			return m, 16
		}
	}
	return nil, 0
}

// pickBits chooses a 16-bit number, all of them in turn, or a 32-bit number, every combination of bytes of a set.
func pickBits(c *x.C, bits int) int32 {
	if bits == 16 {
		return int32(int16(c.Choose(65536, "number")))
	}
	bs := []uint32{0, 1, 0x7f, 0x80, 0xff}
	if c.Thorough() {
		bs = []uint32{0, 1, 2, 0x0a, 0x20, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff}
	}
	var v uint32
	for i := 0; i < 4; i++ {
		v = v<<8 | bs[c.Choose(len(bs), "byte")]
	}
	return int32(v)
}

func init() {
	x.Add(&x.Space{Name: "encode-large", Props: []string{"W02", "W03"}, What: "every message type with its first string, its last string or its list of every length of a set around powers of two and ten up to 2^18, encoded, decoded, and decoded with bytes missing at the end",
		Body: func(c *x.C) {
			k := names(c)
			place := c.Choose(3, "place")
			n := lengths[c.Choose(len(lengths), "length")]
			m := large(k, place, n)
			if m == nil {
				return
			}
			c.Note("%s place %d length %d", k.name, place, n)
			if c.Prop == "W02" {
				roundtrip(c, k, m)
				return
			}
			body := k.enc(m)
			for _, cut := range []int{0, 1, 2, 3, 4, 5, len(body) / 2} {
				if cut <= len(body) {
					judge(c, k, body[:len(body)-cut])
				}
			}
		}, Depth: 2})
	x.Add(&x.Space{Name: "encode-numbers", Props: []string{"W02"}, What: "every numeric field of every message type: all 65536 values of 16-bit ones, every combination of 5 (11) byte values of 32-bit ones",
		Body: func(c *x.C) {
			k := names(c)
			field := c.Choose(6, "field")
			_, bits := number(k, field, 0)
			if bits == 0 {
				return
			}
			m, _ := number(k, field, pickBits(c, bits))
			if m == nil {
				return
			}
			roundtrip(c, k, m)
		}, Depth: 3})
	x.Add(&x.Space{Name: "decode-all-bytes", Props: []string{"W03", "W01"}, What: "every body of up to 2 bytes, and every body of 3 bytes with a middle byte of 8, all values of the bytes; every decoder",
		Body: func(c *x.C) {
			k := names(c)
			n := c.Choose(4, "length")
			var b []byte
			for i := 0; i < n; i++ {
				if n == 3 && i == 1 && !c.Thorough() {
					b = append(b, alphabet[c.Choose(len(alphabet), "byte")])
				} else {
					b = append(b, byte(c.Choose(256, "byte")))
				}
			}
			judge(c, k, b)
		}, Depth: 3})
	x.Add(&x.Space{Name: "decode-patched", Props: []string{"W03", "W01"}, What: "every well-formed body of a small set with every one of its bytes replaced by every value; every decoder",
		Body: func(c *x.C) {
			k := names(c)
			b := append([]byte(nil), k.enc(value(c, k, true))...)
			if len(b) == 0 {
				return
			}
			i := c.Choose(len(b), "position")
			b[i] = byte(c.Choose(256, "byte"))
			judge(c, k, b)
		}, Depth: 3})
	x.Add(&x.Space{Name: "buffer-large", Props: []string{"W05"}, What: "strings, byte arrays and integer arrays of every length of a set up to 2^18, between two other values, written and read back, and read from a buffer that is 1 byte short",
		Body: func(c *x.C) {
			n := lengths[c.Choose(len(lengths), "length")]
			var b pg.WriteBuffer
			var want []byte
			b.WriteInt16(-2)
			want = append(want, enc16(-2)...)
			var a16 []int16
			var a32 []int32
			op := c.Choose(4, "what")
			what := []string{"string", "bytes", "int16s", "int32s"}[op]
			c.Note("%s of length %d", what, n)
			switch op {
			case 0:
				b.WriteString(long(n))
				want = append(append(want, long(n)...), 0)
			case 1:
				b.WriteBytes([]byte(long(n)))
				want = append(want, long(n)...)
			case 2:
				for i := 0; i < n; i++ {
					a16 = append(a16, int16(i*7))
				}
				b.WriteInt16Array(a16)
				want = append(want, enc16(a16...)...)
			case 3:
				for i := 0; i < n; i++ {
					a32 = append(a32, int32(i*70001))
				}
				b.WriteInt32Array(a32)
				want = append(want, enc32(a32...)...)
			}
			short1 := len(want) - 1 // a buffer in which the value is incomplete
			b.WriteInt32(-3)
			want = append(want, enc32(-3)...)
			if !bytes.Equal(b, want) {
				c.Failf("%s of length %d is written as %s instead of %s", what, n, short(b), short(want))
			}
			read := func(r *pg.ReadBuffer) (interface{}, interface{}, error) {
				var got, exp interface{}
				var err error
				switch op {
				case 0:
					got, err = r.ReadString()
					exp = long(n)
				case 1:
					got, err = r.ReadBytes(n)
					exp = []byte(long(n))
				case 2:
					got, err = r.ReadInt16Array(n)
					exp = a16
				case 3:
					got, err = r.ReadInt32Array(n)
					exp = a32
				}
				return got, exp, err
			}
			for _, size := range []int{len(want), short1} {
				r := pg.ReadBuffer(append([]byte(nil), want[:size]...))
				if v, err := r.ReadInt16(); err != nil || v != -2 {
					c.Failf("-2 was read back as %d, %v", v, err)
				}
				got, exp, err := read(&r)
				if size == short1 {
					if err == nil {
						c.Failf("reading %s of length %d from a buffer that lacks its last byte succeeded", what, n)
					}
					if !bytes.Equal(r, want[2:size]) {
						c.Failf("reading %s of length %d from a buffer that lacks its last byte changed the buffer", what, n)
					}
					continue
				}
				if err != nil || !same(got, exp) {
					c.Failf("%s of length %d was not read back: %v", what, n, err)
				}
				if v, err := r.ReadInt32(); err != nil || v != -3 || r.Len() != 0 {
					c.Failf("after %s of length %d: -3 was read back as %d, %v, %d bytes left", what, n, v, err, r.Len())
				}
			}
			c.Step(6)
		}})
	x.Add(&x.Space{Name: "buffer-numbers", Props: []string{"W05"}, What: "all bytes, all 16-bit numbers, every 32-bit number that is a combination of 5 (11) byte values, written and read back, alone and in arrays",
		Body: func(c *x.C) {
			var b pg.WriteBuffer
			switch c.Choose(3, "width") {
			case 0:
				v := byte(c.Choose(256, "byte"))
				b.WriteByte(v)
				b.WriteBytes([]byte{v, 1})
				r := pg.ReadBuffer(b)
				p, err := r.ReadByte()
				q, err2 := r.ReadBytes(2)
				if !bytes.Equal(b, []byte{v, v, 1}) || err != nil || err2 != nil || p != v || !bytes.Equal(q, []byte{v, 1}) {
					c.Failf("byte %d: % x, read back as %d %v, % x %v", v, []byte(b), p, err, q, err2)
				}
			case 1:
				v := int16(pickBits(c, 16))
				b.WriteInt16(v)
				b.WriteInt16Array([]int16{v, 1})
				r := pg.ReadBuffer(b)
				p, err := r.ReadInt16()
				q, err2 := r.ReadInt16Array(2)
				if !bytes.Equal(b, enc16(v, v, 1)) || err != nil || err2 != nil || p != v || !same(q, []int16{v, 1}) {
					c.Failf("int16 %d: % x, read back as %d %v, %d %v", v, []byte(b), p, err, q, err2)
				}
			case 2:
				v := pickBits(c, 32)
				b.WriteInt32(v)
				b.WriteInt32Array([]int32{v, 1})
				r := pg.ReadBuffer(b)
				p, err := r.ReadInt32()
				q, err2 := r.ReadInt32Array(2)
				if !bytes.Equal(b, enc32(v, v, 1)) || err != nil || err2 != nil || p != v || !same(q, []int32{v, 1}) {
					c.Failf("int32 %d: % x, read back as %d %v, %d %v", v, []byte(b), p, err, q, err2)
				}
			}
			c.Step(4)
		}})
	x.Add(&x.Space{Name: "frame-large", Props: []string{"W04"}, Par: 3, Hang: 120, What: "frames of 16 to 256 MiB (1 GiB), exactly and one byte around, followed by a small one",
		Body: func(c *x.C) {
			startup := c.Bool("startup")
			sizes := []int{1<<24 - 6, 1<<24 - 5, 1<<24 - 4, 1<<24 - 3, 1 << 24, 1<<24 + 1, 1<<25 + 3, 1 << 26}
			sizes = append(sizes, 1<<28+3)
			if c.Thorough() {
				sizes = append(sizes, 1<<27-5, 1<<28, 1<<30-20)
			}
			n := sizes[c.Choose(len(sizes), "size")]
			if n > 1<<26 {
				defer debug.FreeOSMemory()
			}
			t := byte('d')
			if startup {
				t = 0
			}
			f, g := refFrame(t, bytes.Repeat([]byte("0123456789abcdef"), n/16+1)[:n]), refFrame(t, []byte("next"))
			c.Note("size %d", n)
			all := append(f, g...)
			f = all[:len(f):len(f)]
			r := &chunks{data: all}
			r.end(c)
			r.sizes = [][]int{nil, {len(f) - 1, 2}}[c.Choose(2, "split")]
			if n > 1<<26 && (r.early || r.err != io.EOF) {
				return
			}
			readAll(c, r, startup, [][]byte{f, g}, !r.early)
		}})
}
