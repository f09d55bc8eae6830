package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime/debug"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

var tail = refFrame('d', []byte("tail"))

// identity passes a frame through a connection as the session does: received as a message, sent as a message.
func identity(c *x.C, typ byte, body []byte) {
	in := append([]byte{typ}, refFrame(0, body)...)
	if c.Sampling() {
		c.Note("%s", short(in))
	}
	s := &script{r: append(append([]byte(nil), in...), tail...)}
	pc := pg.NewConn(s)
	m, err := pc.RecvMessage()
	if err != nil {
		c.Failf("the frame %s is refused: %v", short(in), err)
	}
	if err := pc.SendMessage(m); err != nil {
		c.Failf("sending failed: %v", err)
	}
	if !bytes.Equal(s.w.Bytes(), in) {
		c.Failf("the frame %s is passed on as %s", short(in), short(s.w.Bytes()))
	}
	// what comes after it must be intact
	s.w.Reset()
	if m, err = pc.RecvMessage(); err != nil {
		c.Failf("after the frame %s, the frame % x is refused: %v", short(in), tail, err)
	}
	if err := pc.SendMessage(m); err != nil || !bytes.Equal(s.w.Bytes(), tail) {
		c.Failf("after the frame %s, the frame % x is passed on as %s: %v", short(in), tail, short(s.w.Bytes()), err)
	}
	c.Step(4)
}

// stream is a connection that delivers a frame with a long body, made up as it is read, and compares what is written
// with it.
type stream struct {
	script
	head, tail []byte // of the frame; between them is filler
	n          int    // length of the filler
	pos, wpos  int
	bad        string
}

func (s *stream) at(p []byte, pos int) int {
	n := 0
	for n < len(p) {
		i := pos + n
		switch {
		case i < len(s.head):
			n += copy(p[n:], s.head[i:])
		case i < len(s.head)+s.n:
			k := (i - len(s.head)) % 61
			n += copy(p[n:min(len(p), n+len(s.head)+s.n-i)], filler[k:])
		case i < len(s.head)+s.n+len(s.tail):
			n += copy(p[n:], s.tail[i-len(s.head)-s.n:])
		default:
			return n
		}
	}
	return n
}

var (
	filler = bytes.Repeat([]byte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXY"), 2000) // of period 61
)

func (s *stream) Read(p []byte) (int, error) {
	n := s.at(p, s.pos)
	if s.pos += n; n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (s *stream) Write(p []byte) (int, error) {
	buf := make([]byte, 1<<16)
	for k := 0; k < len(p); {
		part := p[k:min(len(p), k+len(buf))]
		n := s.at(buf[:len(part)], s.wpos)
		if s.bad == "" && !bytes.Equal(buf[:n], part) {
			s.bad = fmt.Sprintf("wrong bytes within %d of byte %d", len(part), s.wpos)
		}
		k += len(part)
		s.wpos += len(part)
	}
	return len(p), nil
}

func init() {
	x.Add(&x.Space{Name: "relay-large", Props: []string{"S01"}, Par: 3, Hang: 120, What: "messages of 5 types and shapes of 64 KiB to 1 GiB, exactly around powers of two, received and sent on",
		Body: func(c *x.C) {
			sizes := []int{1<<16 - 5, 1 << 16, 1<<20 - 4, 1 << 20, 1<<23 + 1, 1<<24 - 5, 1<<24 - 4, 1<<24 + 1, 1<<26 + 1, 1<<28 + 3, 1<<30 - 20}
			if c.Thorough() {
				sizes = append(sizes, 1<<29+1)
			}
			size := sizes[c.Choose(len(sizes), "size")]
			u32 := func(n int) string { return string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}) }
			var typ byte
			var head, tail string
			switch c.Choose(5, "shape") {
			case 0:
				typ = 'd'
			case 1:
				typ, tail = 'Q', "\x00"
			case 2:
				typ, head = 'D', "\x00\x01"+u32(size)
			case 3:
				typ, head, tail = 'E', "SERROR\x00M", "\x00\x00"
			case 4:
				typ, head = 'B', "\x00"
			}
			if size > 1<<26 {
				if typ != 'd' && (typ != 'D' || size > 1<<29 && !c.Thorough()) {
					return
				}
				defer debug.FreeOSMemory()
			}
			c.Note("type %q, %d bytes", typ, size)
			l := 4 + len(head) + size + len(tail)
			s := &stream{head: []byte(string(typ) + u32(l) + head), tail: []byte(tail), n: size}
			pc := pg.NewConn(s)
			m, err := pc.RecvMessage()
			if err != nil {
				c.Failf("a message of type %q with %d bytes is refused: %v", typ, l, err)
			}
			if s.pos != l+1 {
				c.Failf("receiving a message of %d bytes consumed %d", l+1, s.pos)
			}
			if err := pc.SendMessage(m); err != nil || s.wpos != l+1 || s.bad != "" {
				c.Failf("a message of type %q with %d bytes: %d bytes were sent, %v, %s", typ, l, s.wpos, err, s.bad)
			}
			c.Step(2)
		}})
	x.Add(&x.Space{Name: "relay-bytes", Props: []string{"S01"}, What: "every type byte (256), every body of up to 3 (5) bytes over an alphabet of 8, received and sent on",
		Body: func(c *x.C) { t := byte(c.Choose(256, "type")); identity(c, t, bytesBody(c, c.N(3, 5))) }})
	x.Add(&x.Space{Name: "relay-known-bytes", Props: []string{"S01"}, What: "every known type byte, every body of up to 5 (7) bytes over an alphabet of 8, received and sent on",
		Body: func(c *x.C) { t := names(c).typ; identity(c, t, bytesBody(c, c.N(5, 7))) }})
	x.Add(&x.Space{Name: "relay-tokens", Props: []string{"S01"}, What: "every known type byte, every body of up to 4 (5) typical elements, received and sent on",
		Body: func(c *x.C) { t := names(c).typ; identity(c, t, tokenBody(c, c.N(4, 5))) }})
	x.Add(&x.Space{Name: "relay-mutants", Props: []string{"S01"}, What: "every type byte, every well-formed body of every type (also of another type: the frontend messages share type bytes), complete, cut, changed or extended, received and sent on",
		Body: func(c *x.C) {
			t := byte(c.Choose(256, "type"))
			k := names(c)
			if k.typ == t {
				if c.Bool("complete") {
					identity(c, t, k.enc(value(c, k, false)))
					return
				}
				identity(c, t, mutantBody(c, k))
				return
			}
			identity(c, t, k.enc(value(c, k, true)))
		}})
}
