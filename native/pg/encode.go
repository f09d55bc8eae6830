package main

import (
	"bytes"
	"strings"

	"github.com/lib/pq/oid"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

var strs = []string{"", "a", "é\xff\x01", strings.Repeat("long ", 60)}
var nums = []int32{0, 1, -1, 2147483647, -2147483648, 0x01020304}
var cols = [][]byte{nil, {}, {0}, {1, 2, 3}, {0xff, 0xff, 0xff, 0xff}, bytes.Repeat([]byte("xy"), 150)}

func pickStr(c *x.C, small bool) string {
	if small {
		return strs[1+c.Choose(2, "string")]
	}
	return strs[c.Choose(len(strs), "string")]
}

func pickNum(c *x.C, small bool) int32 {
	if small {
		return nums[2+3*c.Choose(2, "number")]
	}
	return nums[c.Choose(len(nums), "number")]
}

func pickNum16(c *x.C, small bool) int16 {
	v := pickNum(c, small)
	switch v {
	case 2147483647:
		return 32767
	case -2147483648:
		return -32768
	}
	return int16(v)
}

func msgFields(c *x.C, small bool) []*pg.MessageField {
	var r []*pg.MessageField
	max := c.N(3, 4)
	if small {
		max = 1
	}
	for n := c.Choose(max+1, "fields"); n > 0; n-- {
		t := []byte{'S', 'C', 1, 0xff}
		if small {
			t = t[:1]
		}
		r = append(r, &pg.MessageField{Type: pg.MessageFieldType(t[c.Choose(len(t), "field type")]), Value: pickStr(c, small)})
	}
	return r
}

// value chooses a value of the kind, from a small set or from a large one.
func value(c *x.C, k *kind, small bool) pg.Message {
	switch k.name {
	case "AuthenticationRequest":
		switch c.Choose(8, "authentication") {
		case 0:
			return &pg.AuthenticationOkMessage{}
		case 1:
			return &pg.AuthenticationKerberosV5Message{}
		case 2:
			return &pg.AuthenticationCleartextPasswordMessage{}
		case 3:
			s := [][4]byte{{1, 2, 3, 4}, {0, 0, 0, 0}, {255, 254, 0, 1}}
			if small {
				s = s[:1]
			}
			return &pg.AuthenticationMD5PasswordMessage{Salt: s[c.Choose(len(s), "salt")]}
		case 4:
			return &pg.AuthenticationSCMCredentialMessage{}
		case 5:
			return &pg.AuthenticationGSSMessage{}
		case 6:
			s := cols[1:]
			if small {
				s = cols[3:4]
			}
			return &pg.AuthenticationGSSContinueMessage{Data: append([]byte{}, s[c.Choose(len(s), "data")]...)}
		default:
			return &pg.AuthenticationSSPIMessage{}
		}
	case "BackendKeyData":
		return &pg.BackendKeyDataMessage{ProcessID: pickNum(c, small), Key: pickNum(c, small)}
	case "CommandComplete":
		return &pg.CommandCompleteMessage{Tag: pickStr(c, small)}
	case "DataRow":
		m := &pg.DataRowMessage{}
		max := c.N(4, 6)
		if small {
			max = 2
		}
		n := c.Choose(max+3, "columns")
		if n > max { // many columns
			if small {
				n = 3
			} else {
				v := cols[c.Choose(len(cols)-1, "value")]
				for i := []int{1000, 32767}[n-max-1]; i > 0; i-- {
					m.Values = append(m.Values, v)
				}
				return m
			}
		}
		for ; n > 0; n-- {
			s := cols
			if small {
				s = [][]byte{nil, {}, {1, 2, 3}}
			}
			v := s[c.Choose(len(s), "value")]
			if v != nil {
				v = append([]byte{}, v...)
			}
			m.Values = append(m.Values, v)
		}
		return m
	case "EmptyQueryResponse":
		return &pg.EmptyQueryResponseMessage{}
	case "ErrorResponse":
		return &pg.ErrorResponseMessage{Fields: msgFields(c, small)}
	case "NoticeResponse":
		return &pg.NoticeResponseMessage{Fields: msgFields(c, small)}
	case "NegotiateProtocolVersion":
		m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: pickNum(c, small)}
		for n := c.Choose(c.N(4, 5), "options"); n > 0; n-- {
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, pickStr(c, small))
		}
		return m
	case "ParameterStatus":
		return &pg.ParameterStatusMessage{Name: pickStr(c, small), Value: pickStr(c, small)}
	case "Password":
		return &pg.PasswordMessage{Password: pickStr(c, small)}
	case "Query":
		return &pg.QueryMessage{Query: pickStr(c, small)}
	case "ReadyForQuery":
		if small {
			return &pg.ReadyForQueryMessage{TxStatus: pg.TxStatusIdle}
		}
		return &pg.ReadyForQueryMessage{TxStatus: pg.TxStatus(c.Choose(256, "status"))}
	case "RowDescription":
		m := &pg.RowDescriptionMessage{}
		n := c.Choose(4, "fields")
		for i := 0; i < n; i++ {
			if n == 1 && !small {
				m.Fields = append(m.Fields, &pg.FieldDescriptor{Name: pickStr(c, false), TableOID: oid.Oid(pickNum(c, false)), ColumnIndex: pickNum16(c, true), DataTypeOID: oid.Oid(pickNum(c, false)),
					DataTypeSize: pickNum16(c, false), DataTypeModifier: pickNum(c, false), Format: pg.DataFormat(pickNum16(c, true))})
				continue
			}
			m.Fields = append(m.Fields, descriptors[c.Choose(c.N(3, 5), "field")])
			f := *m.Fields[i]
			m.Fields[i] = &f
		}
		return m
	case "Startup":
		m := &pg.StartupMessage{ProtocolVersion: int32(c.PickInt("version", 196608, 80877103, 196610, 80877104))}
		if m.ProtocolVersion>>16 == 1234 {
			return m
		}
		names := []string{"user", "database", "a"}
		max := 3
		if small {
			names, max = names[:1], 1
		}
		for n := c.Choose(max+1, "parameters"); n > 0; n-- {
			m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: names[c.Choose(len(names), "name")], Value: pickStr(c, small)})
		}
		return m
	case "Terminate":
		return &pg.TerminateMessage{}
	case "Generic":
		t := byte('d')
		if !small {
			t = byte(1 + c.Choose(255, "type"))
		}
		s := cols[1:]
		if small {
			s = cols[3:4]
		}
		return &pg.GenericMessage{Type: t, Body: append([]byte{}, s[c.Choose(len(s), "body")]...)}
	}
	panic(k.name)
}

var descriptors = []*pg.FieldDescriptor{
	{Name: "id", TableOID: 16385, ColumnIndex: 1, DataTypeOID: 23, DataTypeSize: 4, DataTypeModifier: -1},
	{Name: "", TableOID: 4294967295, ColumnIndex: -1, DataTypeOID: 2147483648, DataTypeSize: -2, DataTypeModifier: 2147483647, Format: 1},
	{Name: "é?", TableOID: 0, ColumnIndex: 32767, DataTypeOID: 25, DataTypeSize: -1, DataTypeModifier: 0x01020304, Format: 0},
	{Name: "x", TableOID: 1, ColumnIndex: 258, DataTypeOID: 772, DataTypeSize: 1286, DataTypeModifier: -2147483648, Format: -1},
	{Name: strings.Repeat("n", 63), TableOID: 1 << 24, ColumnIndex: -32768, DataTypeOID: 1 << 16, DataTypeSize: 32767, DataTypeModifier: 1},
}

// roundtrip checks the encoding of a message and its decoding.
func roundtrip(c *x.C, k *kind, m pg.Message) {
	before := dump(m)
	if c.Sampling() {
		c.Note("%s", before)
	}
	typ := k.typ
	if g, ok := m.(*pg.GenericMessage); ok {
		typ = g.Type
	}
	want := refFrame(typ, k.enc(m))
	f := m.Frame()
	got := f.Bytes()
	if !bytes.Equal(got, want) {
		c.Failf("%s is encoded as %s instead of %s", before, short(got), short(want))
	}
	if f.MessageType() != typ {
		c.Failf("the frame of %s has type %d instead of %d", before, f.MessageType(), typ)
	}
	back, err := k.parse(f)
	if err != nil {
		c.Failf("%s is encoded as %s, which is not decoded: %v", before, short(got), err)
	}
	if !equal(back, m) {
		c.Failf("%s is encoded as %s and decoded to %s", before, short(got), dump(back))
	}
	if dump(m) != before {
		c.Failf("encoding changed %s to %s", before, dump(m))
	}
	if again := m.Frame().Bytes(); !bytes.Equal(again, want) {
		c.Failf("encoding %s again gives %s", before, short(again))
	}
	c.Step(3)
}

func init() {
	x.Add(&x.Space{Name: "encode-values", Props: []string{"W02"}, What: "every message type with every combination of field values of a set (empty, NULL, negative, extreme, long, many)",
		Body: func(c *x.C) { k := names(c); roundtrip(c, k, value(c, k, false)) }, Depth: 3})
	x.Add(&x.Space{Name: "encode-sizes", Props: []string{"W02", "W04"}, What: "messages whose frame has every size from 5 to 1300 (5000) bytes and sizes around powers of two up to 16 MiB, through a connection",
		Body: func(c *x.C) {
			n := c.Choose(c.N(1300, 5000)+20, "size")
			if big := n - c.N(1300, 5000); big >= 0 {
				n = 1<<uint(11+big*13/20) + []int{-1, 0, 1}[big%3]
			}
			var m pg.Message = &pg.GenericMessage{Type: 'd', Body: bytes.Repeat([]byte{'d'}, n)}
			k := kindOf("Generic")
			switch c.Choose(3, "message") {
			case 1:
				m, k = &pg.QueryMessage{Query: strings.Repeat("q", n)}, kindOf("Query")
			case 2:
				m, k = &pg.DataRowMessage{Values: [][]byte{bytes.Repeat([]byte{0}, n), nil, {7}}}, kindOf("DataRow")
			}
			conn := &script{}
			pc := pg.NewConn(conn)
			tail := &pg.QueryMessage{Query: "tail"}
			if err := pc.SendMessage(m); err != nil {
				c.Failf("sending failed: %v", err)
			}
			if err := pc.SendMessage(tail); err != nil {
				c.Failf("sending failed: %v", err)
			}
			if want := append(refFrame(k.typ, k.enc(m)), refFrame('Q', []byte("tail\x00"))...); !bytes.Equal(conn.w.Bytes(), want) {
				c.Failf("a message of %d bytes was sent as %s", n, short(conn.w.Bytes()))
			}
			conn.r = conn.w.Bytes()
			for _, m := range []pg.Message{m, tail} {
				back, err := pc.RecvMessage()
				if err != nil || !equal(back, m) {
					c.Failf("a message of %d bytes was not received as sent: %v", n, err)
				}
			}
			c.Step(4)
		}})
}
