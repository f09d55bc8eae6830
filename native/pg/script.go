package main

import (
	"bytes"
	"io"
	"net"
	"time"
)

// script is a connection that delivers given bytes and records what is written.
type script struct {
	r []byte
	w bytes.Buffer
}

func (s *script) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.r) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.r)
	s.r = s.r[n:]
	return n, nil
}
func (s *script) Write(p []byte) (int, error)        { return s.w.Write(p) }
func (s *script) Close() error                       { return nil }
func (s *script) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (s *script) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (s *script) SetDeadline(t time.Time) error      { return nil }
func (s *script) SetReadDeadline(t time.Time) error  { return nil }
func (s *script) SetWriteDeadline(t time.Time) error { return nil }
