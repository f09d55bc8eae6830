package main

import (
	"bytes"
	"encoding/binary"
	"path/filepath"

	"github.com/hired/gevulot/pkg/cli"
	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/vnet"
	"verif.local/mc/vs"
)

func pgFrame(t byte, body string) []byte {
	b := append([]byte{t}, 0, 0, 0, 0)
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}

func pgStartup(kv ...string) []byte {
	b := []byte{0, 0, 0, 0, 0, 3, 0, 0}
	for _, s := range kv {
		b = append(append(b, s...), 0)
	}
	b = append(b, 0)
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

// program is the whole program, from the configuration file to the sockets.
type program struct {
	*csim
	dbs map[string][]*vnet.TCPConn
}

func (w *program) connect(addr, name string) *vnet.TCPConn {
	c := vnet.ConnectNow(addr, name)
	if c == nil {
		vs.Fail("%s: nobody listens on %s (%s)", name, addr, w.outputs())
	}
	c.Inject(pgStartup("user", "u", "database", "shop"))
	return c
}

// session has a new client served and checks that it got to the given database.
func (w *program) session(addr, host, name string) (cl, db *vnet.TCPConn) {
	n := len(w.dbs[host])
	cl = w.connect(addr, name)
	vs.WaitIdle()
	if len(w.dbs[host]) != n+1 {
		vs.Fail("%s: no connection to %s was made (%s)", name, host, w.outputs())
	}
	db = w.dbs[host][n]
	if want := pgStartup("user", "u", "database", "shop"); !bytes.Equal(db.Sent(), want) {
		vs.Fail("%s: the database got %q as the startup message", name, db.Sent())
	}
	return
}

func wholeScenarios() {
	path := filepath.Join(cwd, "whole.toml")
	listen := []string{"127.0.0.1:7001", "127.0.0.1:7002"}
	hosts := []string{"10.0.0.1:6001", "10.0.0.2:6002"}
	mk := func(max int) func(m *csim) {
		return func(m *csim) {
			w := &program{m, map[string][]*vnet.TCPConn{}}
			for _, hst := range hosts {
				hst := hst
				vnet.Passive(hst, func(db *vnet.TCPConn) { w.dbs[hst] = append(w.dbs[hst], db) })
			}
			vnet.Unbindable("192.0.2.1:1")
			conf := func(l, d string) string {
				return text(&server.Config{Listen: l, DatabaseURL: "postgres://u@" + d + "/shop"})
			}
			vs.Freeze(true)
			put(path, conf(listen[0], hosts[0]))
			vs.GoEnv("program", func() {
				vs.SetEnv(false)
				w.code = cli.ZRunWhole(&w.out, &w.err, []string{"-c", path})
				w.returned = true
			})
			vs.WaitIdle()
			cl, db := w.session(listen[0], hosts[0], "early")
			vs.Freeze(false)
			// edits
			a, d := 0, 0
			n := 1 + vs.Choose(max)
			for i := 0; i < n; i++ {
				c := content{}
				k := vs.Choose(5)
				if i == n-1 {
					k = vs.Choose(3) // the last one is usable
				}
				switch k {
				case 0:
					a, c.text = 1-a, conf(listen[1-a], hosts[d])
				case 1:
					d, c.text = 1-d, conf(listen[a], hosts[1-d])
				case 2:
					a, d, c.text = 1-a, 1-d, conf(listen[1-a], hosts[1-d])
				case 3:
					c.text = "listen = '127.0.0.1:7003'\n"
				case 4:
					c.text = conf("192.0.2.1:1", hosts[d])
				}
				w.edit(path, c, vs.Choose(2))
				if i < n-1 && vs.Choose(2) == 1 {
					vs.WaitIdle()
				}
			}
			vs.WaitIdle()
			vs.Freeze(true)
			if w.returned {
				vs.Fail("the program ended with status %d, %s", w.code, w.outputs())
			}
			ls := vnet.W().Listeners()
			if len(ls) != 1 || ls[0].Addr().String() != listen[a] {
				vs.Fail("after the edits the program does not listen on %s alone (%d listeners; %s)", listen[a], len(ls), w.outputs())
			}
			// the session goes on
			q, z := pgFrame('Q', "still\x00"), pgFrame('Z', "I")
			k := len(db.Sent())
			cl.Inject(q)
			db.Inject(z)
			vs.WaitIdle()
			if !bytes.Equal(db.Sent()[k:], q) || !bytes.Equal(cl.Sent(), z) || cl.PeerClosed() || db.PeerClosed() {
				vs.Fail("after the edits the established session does not go on: the database got %q, the client %q", db.Sent()[k:], cl.Sent())
			}
			w.session(listen[a], hosts[d], "late")
		}
	}
	add("cli-whole", "L03 V03", 2, 4, "the whole program: one edit of the configuration file (listen address, database, both) while a session goes on", body(mk(1), nil))
	add("cli-whole-2", "L03 V03", 1, 2, "the whole program: up to two edits of the configuration file, incomplete ones and unusable addresses among them, while a session goes on", body(mk(2), nil))
}
