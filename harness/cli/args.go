package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/vfsnotify"
	"verif.local/mc/vs"
)

// want is what a list of arguments must lead to.
type want struct {
	info        bool // help or version asked for
	invalid     bool
	unspecified bool // repeated or negated flags
	verbose     bool
	config      string // path; "" is the default
	given       bool   // a path was given
}

// parse is the reference reading of the arguments.
func parse(args []string) (w want) {
	seen := map[string]bool{}
	once := func(n string) {
		w.unspecified = w.unspecified || seen[n]
		seen[n] = true
	}
	for i := 0; i < len(args); i++ {
		a := args[i]
		value := func() {
			once("config")
			if i+1 >= len(args) || strings.HasPrefix(args[i+1], "-") {
				w.invalid = true
				return
			}
			i++
			w.config, w.given = args[i], true
		}
		switch {
		case a == "--":
			w.invalid = w.invalid || i+1 < len(args)
			return
		case a == "--help" || a == "--version":
			once(a)
			w.info = true
		case a == "--help-long" || a == "--help-man":
			once(a)
			w.info = true
		case a == "--verbose" || a == "-v":
			once("verbose")
			w.verbose = true
		case strings.HasPrefix(a, "--config="):
			once("config")
			w.config, w.given = a[len("--config="):], true
		case a == "--config" || a == "-c":
			value()
		case strings.HasPrefix(a, "-c"):
			once("config")
			w.config, w.given = a[2:], true
		default:
			w.invalid = true
		}
	}
	return
}

// configs are the files of the enumeration, with what reading them leads to.
var configs = map[string]*server.Config{
	"good.toml": lit('1'), "invalid.toml": nil, "empty.toml": nil, "half.toml": nil, "dir": nil, "missing.toml": nil, "gevulot.toml": lit('5'), "odd name é.toml": lit('2'),
}

func setupConfigs() {
	for n, c := range configs {
		if c != nil {
			put(filepath.Join(cwd, n), text(c))
		}
	}
	put(filepath.Join(cwd, "invalid.toml"), "listen = \ndatabase-url")
	put(filepath.Join(cwd, "empty.toml"), "")
	put(filepath.Join(cwd, "half.toml"), "listen = '127.0.0.1:1'\n")
	if err := os.MkdirAll(filepath.Join(cwd, "dir"), 0o755); err != nil {
		panic(err)
	}
}

func argsScenarios() {
	alphabet := []string{"--help", "--version", "--verbose", "-v", "--config=good.toml", "--config", "-c", "-cgood.toml", "good.toml", "odd name é.toml", "missing.toml",
		"--config=missing.toml", "--config=invalid.toml", "--config=empty.toml", "--config=half.toml", "--config=dir", "--config=", "--bogus", "-x", "--", "", "--help-long", "--help-man", "--verbose=true"}
	mk := func(max int) func(m *csim) {
		return func(m *csim) {
			setupConfigs()
			vs.Freeze(true)
			var args []string
			for i, n := 0, vs.Choose(max+1); i < n; i++ {
				args = append(args, alphabet[vs.Choose(len(alphabet))])
			}
			w := parse(args)
			// the default file may be good, missing or invalid
			def := configs["gevulot.toml"]
			if !w.given {
				switch vs.Choose(3) {
				case 1:
					def = nil
					if err := os.Remove(filepath.Join(cwd, "gevulot.toml")); err != nil {
						panic(err)
					}
				case 2:
					def = nil
					put(filepath.Join(cwd, "gevulot.toml"), "listen = '127.0.0.1:1'\nlisten")
				}
			}
			m.once = true
			fails := vs.Choose(2) == 1
			if fails {
				m.result = errors.New("zz-server-failed")
			}
			null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			std := os.Stdout
			os.Stdout = null // kingpin prints the long help there, whatever it is told
			vs.SetEnv(false)
			m.run(args...)
			os.Stdout = std
			null.Close()
			cfg := def
			if w.given {
				cfg = configs[w.config]
			}
			bad := func(what string) {
				vs.Fail("arguments %q: %s (status %d, server started %v, %s)", args, what, m.code, m.started, m.outputs())
			}
			switch {
			case w.unspecified:
			case w.info && w.invalid:
				if m.started {
					bad("the server was started although help or the version was asked for")
				}
			case w.info:
				if m.code != 0 {
					bad("help or version must end with status 0")
				}
				if m.started || len(vfsnotify.W().Watchers) > 0 {
					bad("help or version must not start anything")
				}
				both := m.out.String() + m.err.String()
				if strings.Contains(strings.Join(args, " ")+" ", "--version ") && !strings.Contains(strings.Join(args, " "), "--help-") && !strings.Contains(both, "1.2.3-test") {
					bad("the version was not printed")
				}
				if strings.Contains(strings.Join(args, " ")+" ", "--help ") && !strings.Contains(strings.Join(args, " "), "--help-") && !strings.Contains(both, "usage") {
					bad("help was not printed")
				}
			case w.invalid:
				if m.code != 1 || m.started || m.err.Len() == 0 {
					bad("invalid arguments must be reported")
				}
			case cfg == nil:
				if m.code != 1 || m.started || m.err.Len() == 0 {
					bad("an unusable configuration must be reported")
				}
			default:
				if !m.started {
					bad("the server was not started")
				}
				if len(m.got) != 1 || *m.got[0] != *cfg {
					vs.Fail("arguments %q: the server was started with %s instead of %s", args, m.last(), show(cfg))
				}
				if fails && (m.code != 1 || !strings.Contains(m.err.String(), "zz-server-failed")) {
					bad("the server error must be reported")
				}
				if !fails && m.code != 0 {
					bad("the server ended without error")
				}
				if debug := strings.Contains(m.out.String()+m.err.String(), "zz-debug-line"); debug != w.verbose {
					bad("debug output appears exactly if it is asked for")
				}
			}
			if !w.verbose && !w.invalid && strings.Contains(m.out.String()+m.err.String(), "level=debug") {
				bad("debug output although it was not asked for")
			}
		}
	}
	end := func(m *csim, x *vs.Exec) string {
		if !m.returned {
			return "the program hangs"
		}
		return ""
	}
	add("cli-server-errors", "L01", 0, 0, "whatever error the server returns, of 12 kinds, wrapped or not: status 1 and a message", body(func(m *csim) {
		setupConfigs()
		vs.Freeze(true)
		errs := []error{server.ErrServerClosed, server.ErrServerAlreadyStarted, server.ErrSessionClosed, server.ErrConfigDistributorClosed, io.EOF, io.ErrUnexpectedEOF, net.ErrClosed,
			context.Canceled, os.ErrClosed, syscall.EADDRINUSE, errors.New("zz"), &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EACCES)}}
		e := errs[vs.Choose(len(errs))]
		if vs.Choose(2) == 1 {
			e = fmt.Errorf("zz-wrapped: %w", e)
		}
		args := [][]string{{"-c", "good.toml"}, {"-v", "-c", "good.toml"}, {}}[vs.Choose(3)]
		m.once = true
		m.result = e
		vs.SetEnv(false)
		m.run(args...)
		if m.code != 1 || m.err.Len() == 0 {
			vs.Fail("the server has returned the error %q: status %d, %s", e, m.code, m.outputs())
		}
	}, end))
	add("cli-args", "L01", 0, 0, "every list of up to 2 arguments out of 24, times the state of the default configuration file, times the server's result", body(mk(2), end))
	deep("cli-args-3", "L01", 0, 0, "every list of up to 3 arguments out of 24, times the state of the default configuration file, times the server's result", body(mk(3), end))
}
