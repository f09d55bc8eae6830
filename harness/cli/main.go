// Command cli explores pkg/cli on the virtual runtime: the command line, the configuration file and its watcher.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	log "github.com/sirupsen/logrus"

	"github.com/hired/gevulot/pkg/cli"
	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/h"
	"verif.local/mc/vos"
	"verif.local/mc/vs"
)

var (
	scratch string // scratch folder of this process
	cwd     string // its current folder
	exeDir  string // where the program supposedly lives
)

// lit is a configuration with the given letter.
func lit(c byte) *server.Config {
	return &server.Config{Listen: "127.0.0.1:100" + string(c), DatabaseURL: "postgres://u@10.0.0." + string(c) + "/db" + string(c)}
}

func text(c *server.Config) string {
	return fmt.Sprintf("listen = %q\ndatabase-url = %q\n", c.Listen, c.DatabaseURL)
}

func put(name, content string) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		panic(err)
	}
}

// environment fills the environment with variables that no program asked on the command line should listen to, and homes
// with configuration files that nobody has named.
func environment() {
	home := filepath.Join(scratch, "home")
	for _, n := range []string{"gevulot.toml", ".gevulot.toml", ".config/gevulot.toml", ".config/gevulot/gevulot.toml", "xdg/gevulot.toml", "xdg/gevulot/gevulot.toml"} {
		put(filepath.Join(home, n), text(lit('9')))
	}
	put(filepath.Join(scratch, "gevulot.toml"), text(lit('9'))) // in the parent folder
	os.Setenv("HOME", home)
	os.Setenv("XDG_CONFIG_HOME", filepath.Join(home, "xdg"))
	os.Setenv("XDG_CONFIG_DIRS", filepath.Join(home, "xdg"))
	for _, pre := range []string{"", "GEVULOT_"} {
		for _, n := range []string{"CONFIG", "CONFIG_PATH", "CONFIG_FILE", "CONF", "CFG", "PATH_TO_CONFIG"} {
			os.Setenv(pre+n, filepath.Join(home, "gevulot.toml"))
		}
		for _, n := range []string{"DEBUG", "VERBOSE", "TRACE"} {
			os.Setenv(pre+n, "1")
		}
		for _, n := range []string{"LOG_LEVEL", "LOGLEVEL", "LOG", "LEVEL"} {
			os.Setenv(pre+n, "debug")
		}
		for _, n := range []string{"LISTEN", "ADDR", "ADDRESS", "BIND"} {
			os.Setenv(pre+n, "127.0.0.1:1009")
		}
		os.Setenv(pre+"PORT", "1009")
		for _, n := range []string{"DATABASE_URL", "DATABASE", "DB_URL", "POSTGRES_URL", "DSN"} {
			os.Setenv(pre+n, lit('9').DatabaseURL)
		}
	}
	for _, n := range []string{"PGHOST", "PGPORT", "PGUSER", "PGPASSWORD", "PGDATABASE", "PGSSLMODE"} {
		os.Setenv(n, "9")
	}
	vos.Env = func(string) (string, bool) { return "1", true }
}

func main() {
	base := os.Getenv("MC_SCRATCH")
	var err error
	if scratch, err = os.MkdirTemp(base, "cli-"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(scratch)
	scratch, _ = filepath.EvalSymlinks(scratch)
	cwd, exeDir = filepath.Join(scratch, "cwd"), filepath.Join(scratch, "exe")
	for _, d := range []string{cwd, exeDir} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	put(filepath.Join(exeDir, "gevulot.toml"), text(lit('9')))
	os.Args[0] = filepath.Join(exeDir, "gevulot")
	log.StandardLogger().ExitFunc = func(c int) { panic(vos.ExitPanic(c)) }
	environment()
	argsScenarios()
	fileScenarios()
	watchScenarios()
	wholeScenarios()
	h.Main()
}

func add(name, props string, quick, thorough int, what string, mk func() *vs.Scenario) {
	h.Add(&h.Sc{Name: name, Props: append(strings.Fields(props), "R01"), What: what, Make: mk, Quick: quick, Thorough: thorough, Mode: vs.Delay, Weight: 1})
}

// deep adds a scenario of the thorough tier only.
func deep(name, props string, quick, thorough int, what string, mk func() *vs.Scenario) {
	h.Add(&h.Sc{Name: name, Props: append(strings.Fields(props), "R01"), What: what, Make: mk, Quick: quick, Thorough: thorough, Mode: vs.Delay, Weight: 1, ThoroughOnly: true})
}

// csim is one run of the program.
type csim struct {
	out, err bytes.Buffer
	got      []*server.Config // configurations received by the server
	started  bool
	returned bool
	code     int
	gate     chan struct{} // closed: the server may receive
	stop     chan struct{} // closed: the server ends
	result   error         // what the server ends with
	once     bool          // the server ends as soon as it has a configuration
}

func newCsim() *csim {
	cli.ZBuild("1.2.3-test", "c0ffee", "yesterday")
	log.SetLevel(log.InfoLevel)
	log.SetOutput(io.Discard)
	if err := os.Chdir(cwd); err != nil {
		panic(err)
	}
	return &csim{gate: make(chan struct{}), stop: make(chan struct{})}
}

// serve stands in for the server: it receives configurations until it is stopped.
func (m *csim) serve(ch <-chan *server.Config) error {
	m.started = true
	log.Debug("zz-debug-line")
	if m.once {
		c, ok := vs.Recv2(ch, "server")
		if !ok {
			return errors.New("the configuration channel was closed")
		}
		m.got = append(m.got, c)
		return m.result
	}
	vs.Recv((<-chan struct{})(m.gate), "gate")
	for {
		c := vs.RecvCase(ch)
		if vs.Select("server", false, c, vs.RecvCase((<-chan struct{})(m.stop))) == 1 {
			return m.result
		}
		if !c.OK {
			return errors.New("the configuration channel was closed")
		}
		cp := *c.Val
		m.got = append(m.got, &cp)
		vs.Note("server received %+v", cp)
	}
}

func (m *csim) run(args ...string) {
	m.code = cli.ZRun(&m.out, &m.err, m.serve, args)
	m.returned = true
}

func (m *csim) last() string {
	if len(m.got) == 0 {
		return "nothing"
	}
	return show(m.got[len(m.got)-1])
}

func show(c *server.Config) string { return fmt.Sprintf("{%s %s}", c.Listen, c.DatabaseURL) }

func (m *csim) outputs() string {
	return fmt.Sprintf("stdout %q, stderr %q", m.out.String(), m.err.String())
}

func body(f func(m *csim), end func(m *csim, x *vs.Exec) string) func() *vs.Scenario {
	return func() *vs.Scenario {
		var m *csim
		return &vs.Scenario{
			Body: func() {
				m = newCsim()
				f(m)
			},
			End: func(x *vs.Exec) string {
				if end != nil {
					return end(m, x)
				}
				return ""
			},
		}
	}
}

// long is for scenarios of many steps.
func long(mk func() *vs.Scenario) func() *vs.Scenario {
	return func() *vs.Scenario {
		s := mk()
		s.MaxSteps, s.MaxTimers = 400000, 100000
		return s
	}
}
