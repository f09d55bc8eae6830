package main

import (
	"bytes"
	"fmt"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

// held is a message received earlier, with an independent copy of what it must contain.
type held struct {
	m, want pg.Message
	k       *kind
}

// aliasValues are the messages used for W06: kinds that hold bytes, lists or several strings.
func aliasValue(i int) (pg.Message, *kind) {
	switch i {
	case 0:
		return &pg.DataRowMessage{Values: [][]byte{[]byte("one"), nil, []byte("two"), {}, []byte("three")}}, kindOf("DataRow")
	case 1:
		return &pg.GenericMessage{Type: 'd', Body: []byte("copy data")}, kindOf("Generic")
	case 2:
		return &pg.AuthenticationGSSContinueMessage{Data: []byte("gss")}, kindOf("AuthenticationRequest")
	case 3:
		return &pg.RowDescriptionMessage{Fields: []*pg.FieldDescriptor{{Name: "a", TableOID: 1}, {Name: "b", Format: 1}}}, kindOf("RowDescription")
	case 4:
		return &pg.ErrorResponseMessage{Fields: []*pg.MessageField{{Type: 'S', Value: "ERROR"}, {Type: 'C', Value: "42601"}}}, kindOf("ErrorResponse")
	case 5:
		return &pg.QueryMessage{Query: "select 1"}, kindOf("Query")
	case 6:
		return &pg.DataRowMessage{Values: [][]byte{bytes.Repeat([]byte("L"), 700), bytes.Repeat([]byte("M"), 5)}}, kindOf("DataRow")
	case 7:
		return &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: 3, UnrecognizedOptions: []string{"x", "y"}}, kindOf("NegotiateProtocolVersion")
	}
	return &pg.AuthenticationMD5PasswordMessage{Salt: [4]byte{1, 2, 3, 4}}, kindOf("AuthenticationRequest")
}

const aliasKinds = 9

// change applies the same change to a message and to the copy of what it must contain.
func change(c *x.C, h *held) {
	both := func(f func(m pg.Message)) { f(h.m); f(h.want) }
	how := func(b []byte, how int) []byte {
		switch how {
		case 0: // mask in place
			for i := range b {
				b[i] = '*'
			}
			return b
		case 1: // extend
			return append(b, "+extended"...)
		case 2: // replace, reusing the storage
			return append(b[:0], "replacement value"...)
		}
		return append(b[:len(b)/2], "#"...)
	}
	switch m := h.m.(type) {
	case *pg.DataRowMessage:
		i, w := c.Choose(len(m.Values)+1, "column"), 0
		if i < len(m.Values) {
			w = c.Choose(4, "how")
		}
		both(func(m pg.Message) {
			d := m.(*pg.DataRowMessage)
			if i == len(d.Values) {
				d.Values = append(d.Values, []byte("new"))
				return
			}
			d.Values[i] = how(d.Values[i], w)
		})
	case *pg.GenericMessage:
		w := c.Choose(4, "how")
		both(func(m pg.Message) { g := m.(*pg.GenericMessage); g.Body = how(g.Body, w) })
	case *pg.AuthenticationGSSContinueMessage:
		w := c.Choose(4, "how")
		both(func(m pg.Message) { g := m.(*pg.AuthenticationGSSContinueMessage); g.Data = how(g.Data, w) })
	case *pg.AuthenticationMD5PasswordMessage:
		both(func(m pg.Message) { m.(*pg.AuthenticationMD5PasswordMessage).Salt[1] = 9 })
	case *pg.RowDescriptionMessage:
		both(func(m pg.Message) {
			r := m.(*pg.RowDescriptionMessage)
			r.Fields[0].Name = "masked"
			r.Fields = append(r.Fields, &pg.FieldDescriptor{Name: "new"})
		})
	case *pg.ErrorResponseMessage:
		both(func(m pg.Message) {
			e := m.(*pg.ErrorResponseMessage)
			e.Fields[1].Value = "XX000"
			e.Fields = append(e.Fields[:1], &pg.MessageField{Type: 'M', Value: "new"})
		})
	case *pg.QueryMessage:
		both(func(m pg.Message) { m.(*pg.QueryMessage).Query += ";" })
	case *pg.NegotiateProtocolVersionMessage:
		both(func(m pg.Message) {
			n := m.(*pg.NegotiateProtocolVersionMessage)
			n.UnrecognizedOptions = append(n.UnrecognizedOptions[:1], "z", "zz")
		})
	}
}

func init() {
	x.Add(&x.Space{Name: "independence", Props: []string{"W06"}, What: "a received message, then every sequence of 2 (3) operations among receiving on the same or another connection, sending, encoding, and changing, extending or replacing any value; every message and frame so far must keep its content",
		Body: func(c *x.C) {
			conns := []*script{{}, {}}
			pcs := []*pg.Conn{pg.NewConn(conns[0]), pg.NewConn(conns[1])}
			var msgs []*held
			type hf struct {
				f    pg.Frame
				want []byte
			}
			var frames []hf
			var trace []string
			behind := refFrame('Q', []byte("behind the message\x00"))
			read := [2]int{}
			recv := func(i, which int) {
				m, k := aliasValue(which)
				typ := k.typ
				if g, ok := m.(*pg.GenericMessage); ok {
					typ = g.Type
				}
				// something is already in the stream behind the message when it is read
				conns[i].r = append(append(conns[i].r, refFrame(typ, k.enc(m))...), behind...)
				if read[i]++; read[i] > 1 {
					if got, err := pcs[i].RecvMessage(); err != nil || !equal(got, &pg.QueryMessage{Query: "behind the message"}) {
						c.Failf("received %s, %v instead of what is behind the previous message", dump(got), err)
					}
				}
				got, err := pcs[i].RecvMessage()
				if err != nil {
					c.Failf("receiving failed: %v", err)
				}
				if !equal(got, m) {
					c.Failf("received %s instead of %s", dump(got), dump(m))
				}
				msgs = append(msgs, &held{got, m, k})
			}
			first := c.Choose(aliasKinds, "first message")
			recv(0, first)
			for n := c.N(2, 3); n > 0; n-- {
				op := c.Choose(5, "operation")
				switch op {
				case 0, 1:
					recv(op, c.Choose(aliasKinds, "message"))
				case 2: // send
					h := msgs[c.Choose(len(msgs), "which")]
					i := c.Choose(2, "connection")
					conns[i].w.Reset()
					if err := pcs[i].SendMessage(h.m); err != nil {
						c.Failf("sending failed: %v", err)
					}
					checkEnc(c, h, conns[i].w.Bytes())
				case 3: // encode
					h := msgs[c.Choose(len(msgs), "which")]
					f := h.m.Frame()
					checkEnc(c, h, f.Bytes())
					frames = append(frames, hf{f, append([]byte(nil), f.Bytes()...)})
					if c.Bool("change the frame") { // a frame is the caller's
						b := f.Bytes()
						b[len(b)-1] ^= 0xff
						frames[len(frames)-1].want[len(b)-1] ^= 0xff
					}
				case 4:
					change(c, msgs[c.Choose(len(msgs), "which")])
				}
				trace = append(trace, fmt.Sprint(op))
				c.Step(1)
				for i, h := range msgs {
					if !equal(h.m, h.want) {
						c.Failf("after operations %v on message kind %d, message %d is %s instead of %s", trace, first, i, dump(h.m), dump(h.want))
					}
				}
				for i, f := range frames {
					if !bytes.Equal(f.f.Bytes(), f.want) {
						c.Failf("after operations %v, frame %d is %s instead of %s", trace, i, short(f.f.Bytes()), short(f.want))
					}
				}
			}
			if c.Sampling() {
				c.Note("first message kind %d, operations %v, %d messages, %d frames", first, trace, len(msgs), len(frames))
			}
		}, Depth: 3})
}

func checkEnc(c *x.C, h *held, got []byte) {
	typ := h.k.typ
	if g, ok := h.want.(*pg.GenericMessage); ok {
		typ = g.Type
	}
	if want := refFrame(typ, h.k.enc(h.want)); !bytes.Equal(got, want) {
		c.Failf("%s is encoded as %s instead of %s", dump(h.want), short(got), short(want))
	}
}
