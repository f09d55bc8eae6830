package main

// The reference codec: written from the PostgreSQL protocol documentation, sharing no code with the program under test.

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/lib/pq/oid"

	"github.com/hired/gevulot/pkg/pg"
)

// verdicts of the reference decoder
const (
	accept      = iota // the body is exactly the encoding of the value
	trailing           // a well-formed body followed by further bytes
	reject             // the body ends early, lacks a terminator or declares a negative size or count
	unspecified        // neither the documentation nor the property says
)

// kind is a message type.
type kind struct {
	name  string
	typ   byte
	parse func(pg.Frame) (pg.Message, error)
	ref   func(body []byte) (pg.Message, int)
	enc   func(m pg.Message) []byte // reference body
}

func ret(m pg.Message, err error) (pg.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

// cur is a cursor of the reference decoder.
type cur struct {
	b   []byte
	bad bool
}

func (c *cur) u(n int) uint64 {
	if c.bad || len(c.b) < n {
		c.bad = true
		return 0
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v*256 + uint64(c.b[i])
	}
	c.b = c.b[n:]
	return v
}
func (c *cur) i32() int32 { return int32(uint32(c.u(4))) }
func (c *cur) i16() int16 { return int16(uint16(c.u(2))) }
func (c *cur) str() string {
	if c.bad {
		return ""
	}
	for i, x := range c.b {
		if x == 0 {
			s := string(c.b[:i])
			c.b = c.b[i+1:]
			return s
		}
	}
	c.bad = true
	return ""
}
func (c *cur) raw(n int) []byte {
	if c.bad || n < 0 || n > len(c.b) {
		c.bad = true
		return nil
	}
	r := append([]byte{}, c.b[:n]...)
	c.b = c.b[n:]
	return r
}
func (c *cur) end(m pg.Message) (pg.Message, int) {
	switch {
	case c.bad:
		return nil, reject
	case len(c.b) > 0:
		return m, trailing
	}
	return m, accept
}

// w builds the reference encoding.
type w struct{ bytes.Buffer }

func (b *w) u(v uint64, n int) *w {
	for i := n - 1; i >= 0; i-- {
		b.WriteByte(byte(v >> (8 * uint(i))))
	}
	return b
}
func (b *w) i32(v int32) *w  { return b.u(uint64(uint32(v)), 4) }
func (b *w) i16(v int16) *w  { return b.u(uint64(uint16(v)), 2) }
func (b *w) str(s string) *w { b.WriteString(s); b.WriteByte(0); return b }

// refFrame is the documented frame around a body.
func refFrame(typ byte, body []byte) []byte {
	var b w
	if typ != 0 {
		b.WriteByte(typ)
	}
	b.u(uint64(len(body)+4), 4)
	b.Write(body)
	return b.Bytes()
}

func fields(body []byte) ([]*pg.MessageField, int) {
	c := &cur{b: body}
	r := []*pg.MessageField{}
	for {
		t := byte(c.u(1))
		if c.bad || t == 0 {
			_, v := c.end(nil)
			return r, v
		}
		r = append(r, &pg.MessageField{Type: pg.MessageFieldType(t), Value: c.str()})
	}
}

func encFields(fs []*pg.MessageField) []byte {
	var b w
	for _, f := range fs {
		b.WriteByte(byte(f.Type))
		b.str(f.Value)
	}
	b.WriteByte(0)
	return b.Bytes()
}

func auth(body []byte) (pg.Message, int) {
	c := &cur{b: body}
	s := c.i32()
	if c.bad {
		return nil, reject
	}
	switch s {
	case 0:
		return c.end(&pg.AuthenticationOkMessage{})
	case 2:
		return c.end(&pg.AuthenticationKerberosV5Message{})
	case 3:
		return c.end(&pg.AuthenticationCleartextPasswordMessage{})
	case 5:
		m := &pg.AuthenticationMD5PasswordMessage{}
		copy(m.Salt[:], c.raw(4))
		return c.end(m)
	case 6:
		return c.end(&pg.AuthenticationSCMCredentialMessage{})
	case 7:
		return c.end(&pg.AuthenticationGSSMessage{})
	case 8:
		return c.end(&pg.AuthenticationGSSContinueMessage{Data: c.raw(len(c.b))})
	case 9:
		return c.end(&pg.AuthenticationSSPIMessage{})
	}
	return nil, unspecified
}

func encAuth(m pg.Message) []byte {
	var b w
	switch m := m.(type) {
	case *pg.AuthenticationOkMessage:
		b.i32(0)
	case *pg.AuthenticationKerberosV5Message:
		b.i32(2)
	case *pg.AuthenticationCleartextPasswordMessage:
		b.i32(3)
	case *pg.AuthenticationMD5PasswordMessage:
		b.i32(5).Write(m.Salt[:])
	case *pg.AuthenticationSCMCredentialMessage:
		b.i32(6)
	case *pg.AuthenticationGSSMessage:
		b.i32(7)
	case *pg.AuthenticationGSSContinueMessage:
		b.i32(8).Write(m.Data)
	case *pg.AuthenticationSSPIMessage:
		b.i32(9)
	}
	return b.Bytes()
}

var kinds = []*kind{
	{"AuthenticationRequest", 'R', func(f pg.Frame) (pg.Message, error) {
		m, err := pg.ParseAuthenticationRequestMessage(f)
		if err != nil {
			return nil, err
		}
		return m, nil
	}, auth, encAuth},
	{"BackendKeyData", 'K', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseBackendKeyDataMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			m := &pg.BackendKeyDataMessage{}
			m.ProcessID, m.Key = c.i32(), c.i32()
			return c.end(m)
		},
		func(m pg.Message) []byte {
			v := m.(*pg.BackendKeyDataMessage)
			return new(w).i32(v.ProcessID).i32(v.Key).Bytes()
		}},
	{"CommandComplete", 'C', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseCommandCompleteMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			return c.end(&pg.CommandCompleteMessage{Tag: c.str()})
		},
		func(m pg.Message) []byte { return new(w).str(m.(*pg.CommandCompleteMessage).Tag).Bytes() }},
	{"DataRow", 'D', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseDataRowMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			n := int(c.i16())
			if n < 0 {
				return nil, reject
			}
			m := &pg.DataRowMessage{Values: [][]byte{}}
			for i := 0; i < n && !c.bad; i++ {
				s := c.i32()
				if s == -1 {
					m.Values = append(m.Values, nil)
					continue
				}
				m.Values = append(m.Values, c.raw(int(s)))
			}
			return c.end(m)
		},
		func(m pg.Message) []byte {
			var b w
			vs := m.(*pg.DataRowMessage).Values
			b.i16(int16(len(vs)))
			for _, v := range vs {
				if v == nil {
					b.i32(-1)
				} else {
					b.i32(int32(len(v))).Write(v)
				}
			}
			return b.Bytes()
		}},
	{"EmptyQueryResponse", 'I', func(f pg.Frame) (pg.Message, error) {
		m, err := pg.ParseEmptyQueryResponseMessage(f)
		return ret(m, err)
	},
		func(b []byte) (pg.Message, int) { c := &cur{b: b}; return c.end(&pg.EmptyQueryResponseMessage{}) },
		func(m pg.Message) []byte { return nil }},
	{"ErrorResponse", 'E', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseErrorResponseMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) { f, v := fields(b); return &pg.ErrorResponseMessage{Fields: f}, v },
		func(m pg.Message) []byte { return encFields(m.(*pg.ErrorResponseMessage).Fields) }},
	{"NoticeResponse", 'N', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseNoticeResponseMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) { f, v := fields(b); return &pg.NoticeResponseMessage{Fields: f}, v },
		func(m pg.Message) []byte { return encFields(m.(*pg.NoticeResponseMessage).Fields) }},
	{"NegotiateProtocolVersion", 'v', func(f pg.Frame) (pg.Message, error) {
		m, err := pg.ParseNegotiateProtocolVersionMessage(f)
		return ret(m, err)
	},
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: c.i32()}
			n := c.i32()
			if n < 0 {
				return nil, reject
			}
			for i := int32(0); i < n && !c.bad; i++ {
				m.UnrecognizedOptions = append(m.UnrecognizedOptions, c.str())
			}
			return c.end(m)
		},
		func(m pg.Message) []byte {
			v := m.(*pg.NegotiateProtocolVersionMessage)
			var b w
			b.i32(v.SupportedProtocolVersion).i32(int32(len(v.UnrecognizedOptions)))
			for _, o := range v.UnrecognizedOptions {
				b.str(o)
			}
			return b.Bytes()
		}},
	{"ParameterStatus", 'S', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseParameterStatusMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			m := &pg.ParameterStatusMessage{}
			m.Name, m.Value = c.str(), c.str()
			return c.end(m)
		},
		func(m pg.Message) []byte {
			v := m.(*pg.ParameterStatusMessage)
			return new(w).str(v.Name).str(v.Value).Bytes()
		}},
	{"Password", 'p', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParsePasswordMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			return c.end(&pg.PasswordMessage{Password: c.str()})
		},
		func(m pg.Message) []byte { return new(w).str(m.(*pg.PasswordMessage).Password).Bytes() }},
	{"Query", 'Q', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseQueryMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) { c := &cur{b: b}; return c.end(&pg.QueryMessage{Query: c.str()}) },
		func(m pg.Message) []byte { return new(w).str(m.(*pg.QueryMessage).Query).Bytes() }},
	{"ReadyForQuery", 'Z', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseReadyForQueryMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			m := &pg.ReadyForQueryMessage{TxStatus: pg.TxStatus(c.u(1))}
			return c.end(m)
		},
		func(m pg.Message) []byte { return []byte{byte(m.(*pg.ReadyForQueryMessage).TxStatus)} }},
	{"RowDescription", 'T', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseRowDescriptionMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			n := int(c.i16())
			if n < 0 {
				return nil, reject
			}
			m := &pg.RowDescriptionMessage{}
			for i := 0; i < n && !c.bad; i++ {
				f := &pg.FieldDescriptor{}
				f.Name = c.str()
				f.TableOID = oid.Oid(c.u(4))
				f.ColumnIndex = c.i16()
				f.DataTypeOID = oid.Oid(c.u(4))
				f.DataTypeSize = c.i16()
				f.DataTypeModifier = c.i32()
				f.Format = pg.DataFormat(c.i16())
				m.Fields = append(m.Fields, f)
			}
			return c.end(m)
		},
		func(m pg.Message) []byte {
			var b w
			fs := m.(*pg.RowDescriptionMessage).Fields
			b.i16(int16(len(fs)))
			for _, f := range fs {
				b.str(f.Name).u(uint64(f.TableOID), 4).i16(f.ColumnIndex).u(uint64(f.DataTypeOID), 4)
				b.i16(f.DataTypeSize).i32(f.DataTypeModifier).i16(int16(f.Format))
			}
			return b.Bytes()
		}},
	{"Startup", 0, func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseStartupMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			c := &cur{b: b}
			m := &pg.StartupMessage{ProtocolVersion: c.i32()}
			if c.bad {
				return nil, reject
			}
			if len(c.b) == 0 {
				if m.ProtocolVersion>>16 == 1234 {
					return m, accept
				}
				return m, unspecified // no parameters and no terminator
			}
			for {
				k := c.str()
				if c.bad || k == "" {
					return c.end(m)
				}
				m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: k, Value: c.str()})
			}
		},
		func(m pg.Message) []byte {
			v := m.(*pg.StartupMessage)
			var b w
			b.i32(v.ProtocolVersion)
			for _, p := range v.Parameters {
				b.str(p.Name).str(p.Value)
			}
			if v.ProtocolVersion>>16 != 1234 {
				b.WriteByte(0)
			}
			return b.Bytes()
		}},
	{"Terminate", 'X', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseTerminateMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) { c := &cur{b: b}; return c.end(&pg.TerminateMessage{}) },
		func(m pg.Message) []byte { return nil }},
	{"Generic", 'd', func(f pg.Frame) (pg.Message, error) { m, err := pg.ParseGenericMessage(f); return ret(m, err) },
		func(b []byte) (pg.Message, int) {
			return &pg.GenericMessage{Type: 'd', Body: append([]byte{}, b...)}, accept
		},
		func(m pg.Message) []byte { return m.(*pg.GenericMessage).Body }},
}

func kindOf(name string) *kind {
	for _, k := range kinds {
		if k.name == name {
			return k
		}
	}
	panic(name)
}

// frame makes a frame of the kind around the body, as the program under test represents frames.
func (k *kind) frame(body []byte) pg.Frame {
	b := refFrame(k.typ, body)
	if k.typ == 0 {
		return pg.StartupFrame(b)
	}
	return pg.StandardFrame(b)
}

// equal compares messages; an empty list equals an absent one, but an empty column value is not NULL.
func equal(a, b pg.Message) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	return dump(a) == dump(b)
}

// dump is a complete description of a message.
func dump(m pg.Message) string {
	switch v := m.(type) {
	case *pg.DataRowMessage:
		var s strings.Builder
		fmt.Fprintf(&s, "DataRow %d", len(v.Values))
		for _, x := range v.Values {
			if x == nil {
				s.WriteString(" NULL")
			} else {
				s.WriteString(" ")
				s.WriteString(strconv.Quote(string(x)))
			}
		}
		return s.String()
	case *pg.ErrorResponseMessage:
		return "Error" + dumpFields(v.Fields)
	case *pg.NoticeResponseMessage:
		return "Notice" + dumpFields(v.Fields)
	case *pg.RowDescriptionMessage:
		var s strings.Builder
		fmt.Fprintf(&s, "Row %d", len(v.Fields))
		for _, f := range v.Fields {
			fmt.Fprintf(&s, " %+v", *f)
		}
		return s.String()
	case *pg.StartupMessage:
		var s strings.Builder
		fmt.Fprintf(&s, "Startup %d", v.ProtocolVersion)
		for _, p := range v.Parameters {
			fmt.Fprintf(&s, " %q=%q", p.Name, p.Value)
		}
		return s.String()
	case *pg.NegotiateProtocolVersionMessage:
		return fmt.Sprintf("Negotiate %d %q", v.SupportedProtocolVersion, v.UnrecognizedOptions)
	case *pg.GenericMessage:
		return fmt.Sprintf("Generic %d %q", v.Type, v.Body)
	case *pg.AuthenticationGSSContinueMessage:
		return fmt.Sprintf("GSSContinue %q", v.Data)
	}
	return fmt.Sprintf("%T%+v", m, reflect.ValueOf(m).Elem().Interface())
}

func dumpFields(fs []*pg.MessageField) string {
	var s strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&s, " %d=%q", f.Type, f.Value)
	}
	return s.String()
}

func short(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("% x … (%d bytes)", b[:80], len(b))
	}
	return fmt.Sprintf("% x", b)
}
