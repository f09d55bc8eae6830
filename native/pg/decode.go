package main

import (
	"bytes"
	"runtime"
	"runtime/metrics"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

var sample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated is what the process has allocated so far.
func allocated(precise bool) uint64 {
	if precise {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.TotalAlloc
	}
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

// frugal runs f and checks that it allocated no more than in proportion to the size of its input.
func frugal(c *x.C, what string, size int, f func()) {
	if c.Prop != "W01" {
		f()
		return
	}
	before := allocated(c.Precise)
	f()
	if n := allocated(c.Precise) - before; n > uint64(96<<10+80*size) {
		c.Imprecise = !c.Precise
		c.Failf("%s allocated %d bytes for %d bytes of input", what, n, size)
	}
}

var alphabet = []byte{0x00, 0x01, 0x02, 0x04, 0x7f, 0x80, 0xff, 'a'}

// bytesBody chooses a body of at most n bytes over the alphabet.
func bytesBody(c *x.C, n int) []byte {
	var b []byte
	for len(b) < n {
		k := c.Choose(len(alphabet)+1, "byte or end")
		if k == len(alphabet) {
			break
		}
		b = append(b, alphabet[k])
	}
	return b
}

var tokens = func() [][]byte {
	var r [][]byte
	for _, v := range []int16{0, 1, 2, 3, -1, 32767, -32768} {
		r = append(r, new(w).i16(v).Bytes())
	}
	for _, v := range []int32{0, 1, 2, 4, 5, 8, 9, -1, -2, 2147483647, -2147483648, 196608, 80877103} {
		r = append(r, new(w).i32(v).Bytes())
	}
	for _, v := range []string{"\x00", "a\x00", "ab", "S", "user\x00", "abcd"} {
		r = append(r, []byte(v))
	}
	r = append(r, new(w).str("col").i32(1).i16(2).i32(23).i16(4).i32(-1).i16(0).Bytes()) // a field descriptor
	r = append(r, new(w).i32(1).i16(-2).i32(23).i16(-4).i32(-1).i16(1).Bytes())          // one without its name
	r = append(r, new(w).i32(2).str("a").Bytes())                                        // a column value
	return r
}()

// tokenBody chooses a body of at most n typical elements.
func tokenBody(c *x.C, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		k := c.Choose(len(tokens)+1, "token or end")
		if k == len(tokens) {
			break
		}
		b = append(b, tokens[k]...)
	}
	return b
}

// mutantBody chooses a well-formed body and cuts it or changes one of its bytes.
func mutantBody(c *x.C, k *kind) []byte {
	b := append([]byte(nil), k.enc(value(c, k, true))...)
	switch c.Choose(3, "cut, change or extend") {
	case 0:
		return b[:c.Choose(len(b)+1, "cut")]
	case 1:
		if len(b) == 0 {
			return b
		}
		i := c.Choose(len(b), "position")
		b[i] = alphabet[c.Choose(len(alphabet), "byte")]
	case 2:
		b = append(b, tokens[c.Choose(len(tokens), "extension")]...)
	}
	return b
}

// judge decodes a frame with the given body and checks the outcome.
func judge(c *x.C, k *kind, body []byte) {
	if c.Sampling() {
		c.Note("%s %s", k.name, short(body))
	}
	f := k.frame(body)
	keep := append([]byte(nil), f.Bytes()...)
	var m pg.Message
	var err error
	frugal(c, k.name, len(body), func() { m, err = k.parse(f) })
	if !bytes.Equal(keep, f.Bytes()) {
		c.Failf("decoding %s changed the frame %s", k.name, short(keep))
	}
	if c.Prop != "W03" {
		return
	}
	want, verdict := k.ref(body)
	switch {
	case verdict == accept && err != nil:
		c.Failf("%s: the well-formed body %s was rejected: %v", k.name, short(body), err)
	case verdict == reject && err == nil:
		c.Failf("%s: the malformed body %s was decoded to %s", k.name, short(body), dump(m))
	case (verdict == accept || verdict == trailing) && err == nil && !equal(m, want):
		c.Failf("%s: the body %s was decoded to %s instead of %s", k.name, short(body), dump(m), dump(want))
	}
}

func names(c *x.C) *kind { return kinds[c.Choose(len(kinds), "message type")] }

func init() {
	x.Add(&x.Space{Name: "decode-bytes", Props: []string{"W01", "W03"}, What: "every body of up to 6 (8) bytes over {00 01 02 04 7f 80 ff 61}, every decoder",
		Body: func(c *x.C) { k := names(c); judge(c, k, bytesBody(c, c.N(6, 8))) }})
	x.Add(&x.Space{Name: "decode-tokens", Props: []string{"W01", "W03"}, What: "every body of up to 4 (5) typical elements (counts, sizes, strings, descriptors, extreme numbers), every decoder",
		Body: func(c *x.C) { k := names(c); judge(c, k, tokenBody(c, c.N(4, 5))) }})
	x.Add(&x.Space{Name: "decode-mutants", Props: []string{"W01", "W03"}, What: "every well-formed body of a set, cut at every byte, with every byte replaced, or extended; every decoder",
		Body: func(c *x.C) { k := names(c); judge(c, k, mutantBody(c, k)) }, Depth: 3})
	x.Add(&x.Space{Name: "decode-rows", Props: []string{"W01", "W03"}, What: "rows: every count, every sequence of up to 3 column sizes and contents",
		Body: func(c *x.C) {
			var b w
			b.i16(int16(c.PickInt("count", 0, 1, 2, 3, 4, -1, 32767, -32768)))
			for i := 0; i < 3; i++ {
				s := c.PickInt("size", -99, -1, 0, 1, 2, 3, 5, 9, -2, 2147483647, -2147483648)
				if s == -99 {
					break
				}
				b.i32(int32(s))
				b.Write(make([]byte, c.PickInt("content", 0, 1, 2, 3, 4, 5, 9)))
			}
			judge(c, kindOf("DataRow"), b.Bytes())
		}})
	x.Add(&x.Space{Name: "decode-wrong-type", Props: []string{"W01"}, What: "every decoder, every other message type (256, and startup frames), well-formed and other bodies",
		Body: func(c *x.C) {
			k := kinds[c.Choose(len(kinds)-1, "decoder")] // all but Generic, which is for any type
			t := c.Choose(257, "message type")
			var body []byte
			switch c.Choose(4, "body") {
			case 0:
				body = k.enc(value(c, k, true))
			case 1:
				body = tokenBody(c, 1)
			case 2:
				o := names(c)
				if byte(t) == o.typ {
					body = o.enc(value(c, o, true))
				}
			case 3:
				body = bytesBody(c, 2)
			}
			var f pg.Frame = pg.StandardFrame(refFrame(byte(t), body))
			switch {
			case t == 0: // a standard frame whose type byte is zero
				f = pg.StandardFrame(append([]byte{0}, refFrame(0, body)...))
				if k.typ == 0 {
					return
				}
			case t == 256:
				f = pg.StartupFrame(refFrame(0, body))
				if k.typ == 0 {
					return
				}
			case byte(t) == k.typ:
				return
			}
			if m, err := k.parse(f); err == nil {
				c.Failf("the decoder of %s accepted a frame of type %d: %s as %s", k.name, t, short(f.Bytes()), dump(m))
			}
		}})
	x.Add(&x.Space{Name: "decode-raw-frames", Props: []string{"W01"}, What: "every raw byte string of up to 8 (9) bytes taken as a frame, every decoder",
		Body: func(c *x.C) {
			k := names(c)
			b := bytesBody(c, c.N(5, 6))
			if len(b) > 0 && c.Bool("own type byte") {
				b[0] = k.typ
			}
			if c.Bool("longer") {
				b = append(b, 0, 0, 4)
			}
			var f pg.Frame = pg.StandardFrame(b)
			if c.Bool("startup frame") {
				f = pg.StartupFrame(b)
			}
			c.Note("%s %T % x", k.name, f, b)
			frugal(c, k.name, len(b), func() { _, _ = k.parse(f) })
			_, _, _ = f.MessageType(), f.MessageBody(), f.Bytes()
		}})
	x.Add(&x.Space{Name: "decode-streams", Props: []string{"W01"}, What: "reading a message or a startup message: every type byte of interest, every declared length of interest, every amount of data that follows",
		Body: func(c *x.C) {
			startup := c.Bool("startup")
			var b w
			if !startup {
				t := c.Choose(len(kinds)+3, "type byte")
				switch {
				case t < len(kinds):
					b.WriteByte(kinds[t].typ)
				default:
					b.WriteByte([]byte{'Y', 0xff, 0x80}[t-len(kinds)])
				}
			}
			b.u(uint64(c.PickInt("declared length", 0, 1, 3, 4, 5, 6, 8, 9, 12, 16, 512, 65536, 1<<24, 1<<30, 1<<31-1, 1<<31, 1<<31+3, 1<<31+4, 1<<32-1, 1<<32-4)), 4)
			hdr := b.Len()
			n := c.PickInt("data", 0, 1, 2, 4, 5, 8, 12, 100, 508, 70000, c.N(70001, 1<<20))
			fill := alphabet[c.Choose(len(alphabet), "content")]
			b.Write(bytes.Repeat([]byte{fill}, n))
			cut := c.Choose(hdr+1, "cut header") // 0: not cut
			data := b.Bytes()
			if cut > 0 {
				data = data[:cut-1]
			}
			c.Note("startup=%v %s", startup, short(data))
			conn := &script{r: data}
			pc := pg.NewConn(conn)
			frugal(c, "receiving", 2*len(data), func() {
				for i := 0; i < 3; i++ {
					var err error
					if startup {
						_, err = pc.RecvStartupMessage()
					} else {
						_, err = pc.RecvMessage()
					}
					if err != nil {
						return
					}
				}
			})
		}, Depth: 3})
	x.Add(&x.Space{Name: "decode-primitives", Props: []string{"W01"}, What: "every primitive read with every extreme size on every small buffer",
		Body: func(c *x.C) {
			b := pg.ReadBuffer(bytesBody(c, c.N(5, 6)))
			n := c.PickInt("size", -1<<63, -1<<62, -1<<61, -1<<32, -1<<31, -2, -1, 0, 1, 2, 3, 5, 6, 1<<16, 1<<30, 1<<31-1, 1<<31, 1<<32, 1<<61, 1<<62, 1<<62+1, 1<<63-1)
			op := c.Choose(7, "operation")
			c.Note("op %d size %d buffer % x", op, n, []byte(b))
			frugal(c, "primitive read", len(b), func() {
				switch op {
				case 0:
					_, _ = b.ReadBytes(n)
				case 1:
					_, _ = b.ReadInt32Array(n)
				case 2:
					_, _ = b.ReadInt16Array(n)
				case 3:
					_, _ = b.ReadString()
				case 4:
					_, _ = b.ReadInt32()
				case 5:
					_, _ = b.ReadInt16()
				case 6:
					_, _ = b.ReadByte()
				}
			})
		}})
}
