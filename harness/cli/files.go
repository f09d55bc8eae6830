package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/vs"
)

// line is a line of a configuration file and what it means.
type line struct {
	text   string
	listen string // sets listen
	url    string // sets database-url
	wrong  bool   // sets one of them to a value of another type
	syntax bool   // not TOML
	table  bool   // begins a table: what follows is not at the top level
	key    string // key defined, to find repetitions
}

var lines = []line{
	{text: `listen = "127.0.0.1:1"`, listen: "127.0.0.1:1", key: "listen"},
	{text: `database-url = "postgres://u:p%40@h/d?a=b&c=d"`, url: "postgres://u:p%40@h/d?a=b&c=d", key: "database-url"},
	{text: `  listen='[::1]:5432'	# comment`, listen: "[::1]:5432", key: "listen"},
	{text: `"database-url" = 'C:\ # "x"'`, url: `C:\ # "x"`, key: "database-url"},
	{text: `database-url = "caf\u00e9 = é"`, url: "café = é", key: "database-url"},
	{text: `listen = " 127.0.0.1:1\t"`, listen: " 127.0.0.1:1\t", key: "listen"},
	{text: `database-url = "  postgres://h/d\n "`, url: "  postgres://h/d\n ", key: "database-url"},
	{text: `# listen = "x"`},
	{text: ``},
	{text: `other = [1, 2, 3]`, key: "other"},
	{text: `listen-address = "x"`, key: "listen-address"},
	{text: `database_url = "x"`, key: "database_url"},
	{text: `[server]`, table: true},
	{text: `listen = 4242`, wrong: true, key: "listen"},
	{text: `listen = ["127.0.0.1:1"]`, wrong: true, key: "listen"},
	{text: `database-url = true`, wrong: true, key: "database-url"},
	{text: `database-url = {host = "h"}`, wrong: true, key: "database-url"},
	{text: `listen = "127.0.0.1:1`, syntax: true},
	{text: `listen`, syntax: true},
	{text: `= "x"`, syntax: true},
	{text: `listen = 127.0.0.1:1`, syntax: true},
	{text: `}`, syntax: true},
}

// meaning is the reference reading of a file; nil: to be rejected.
func meaning(ls []line) *server.Config {
	c := &server.Config{}
	seen := map[string]bool{}
	top, tables := true, 0
	for _, l := range ls {
		if l.syntax {
			return nil
		}
		if l.table {
			top = false
			seen = map[string]bool{}
			if tables++; tables > 1 {
				return nil
			}
		}
		if l.key != "" {
			if seen[l.key] {
				return nil
			}
			seen[l.key] = true
		}
		if !top {
			continue
		}
		if l.wrong {
			return nil
		}
		if l.listen != "" {
			c.Listen = l.listen
		}
		if l.url != "" {
			c.DatabaseURL = l.url
		}
	}
	if c.Listen == "" || c.DatabaseURL == "" {
		return nil
	}
	return c
}

// atStartup starts the program with the file and judges what it makes of it.
func (m *csim) atStartup(path string, content string, wanted *server.Config) {
	m.once = true
	vs.SetEnv(false)
	m.run("--config=" + path)
	m.judge(content, wanted)
}

func (m *csim) judge(content string, wanted *server.Config) {
	switch {
	case wanted == nil:
		if m.started || m.code != 1 || m.err.Len() == 0 {
			vs.Fail("file %q must be rejected: server started %v with %s, status %d, %s", content, m.started, m.last(), m.code, m.outputs())
		}
	case len(m.got) == 0 || *m.got[0] != *wanted:
		vs.Fail("file %q was read as %s instead of %s (%s)", content, m.last(), show(wanted), m.outputs())
	}
}

func join(ls []line, sep string, final bool) string {
	var t []string
	for _, l := range ls {
		t = append(t, l.text)
	}
	s := strings.Join(t, sep)
	if final {
		s += sep
	}
	return s
}

// whole are files whose prefixes are enumerated; min is the length from which on both settings are there.
type whole struct {
	text string
	cfg  *server.Config
	min  int
}

func wholes() []whole {
	w := []whole{
		{text: text(lit('7')), cfg: lit('7')},
		{text: "database-url = 'postgres://localhost:5432/hired_dev'\nlisten = '0.0.0.0:4242'\n", cfg: &server.Config{Listen: "0.0.0.0:4242", DatabaseURL: "postgres://localhost:5432/hired_dev"}},
		{text: "# configuration\r\n\r\nlisten = \"localhost:1\" # port 10\r\ndatabase-url = \"postgresql://a:b@c/d?sslmode=disable\" # listen = 'x'\r\nother = [1, 2]\r\n[more]\r\nlisten = 5\r\n",
			cfg: &server.Config{Listen: "localhost:1", DatabaseURL: "postgresql://a:b@c/d?sslmode=disable"}},
		{text: "listen = \"\"\"\nlocalhost:1\"\"\"\ndatabase-url = '''\npostgres://x'''", cfg: &server.Config{Listen: "localhost:1", DatabaseURL: "postgres://x"}},
	}
	for i := range w {
		for _, s := range []string{w[i].cfg.Listen, w[i].cfg.DatabaseURL} {
			n := strings.Index(w[i].text, s) + len(s) + 1
			if strings.Contains(w[i].text, `"""`) {
				n += 2
			}
			if n > w[i].min {
				w[i].min = n
			}
		}
	}
	return w
}

func fileScenarios() {
	path := filepath.Join(cwd, "cfg.toml")
	done := func(m *csim, x *vs.Exec) string {
		if !m.returned {
			return "the program hangs"
		}
		return ""
	}
	lists := func(max int) func(m *csim) {
		return func(m *csim) {
			vs.Freeze(true)
			var ls []line
			for i, n := 0, vs.Choose(max+1); i < n; i++ {
				ls = append(ls, lines[vs.Choose(len(lines))])
			}
			sep := []string{"\n", "\r\n"}[vs.Choose(2)]
			content := join(ls, sep, vs.Choose(2) == 0)
			put(path, content)
			m.atStartup("cfg.toml", content, meaning(ls))
		}
	}
	add("cli-file-lines", "L02", 0, 0, "every file of up to 3 lines out of 20 (settings in several spellings, wrong types, tables, comments, other settings, syntax errors), LF or CRLF, with or without a final newline, at startup", body(lists(3), done))
	deep("cli-file-lines-4", "L02", 0, 0, "every file of up to 4 lines out of 20, LF or CRLF, with or without a final newline, at startup", body(lists(4), done))

	add("cli-file-values", "L02", 0, 0, "each of 30 unusual values for either setting, in 4 spellings, with the settings in either order: exactly those values", body(func(m *csim) {
		vs.Freeze(true)
		values := []string{"postgres://u:p@h/d/", "/", "://", "HTTP://Example.COM:80/A", "LOCALHOST:5432", "localhost:postgresql", ":5432", "0.0.0.0:0", "[::1%eth0]:1", "0127.0.0.1:01", "tcp://127.0.0.1:1", "unix:/tmp/s", "/tmp/.s.PGSQL.5432",
			"$HOME", "${LISTEN}", "~", "%41%zz", "a b", " ", "\t", "x ", " x", "é", "e\u0301", "\u202e", "1", "true", "{{x}}", "#", "a\\b", "?a=b&a=c#f", "postgres://h/d?", strings.Repeat("l", 9000)}
		v := values[vs.Choose(len(values))]
		which, form, order := vs.Choose(2), vs.Choose(4), vs.Choose(2)
		cfg := lit('4')
		if which == 0 {
			cfg.Listen = v
		} else {
			cfg.DatabaseURL = v
		}
		spell := func(s string) string {
			switch form {
			case 1:
				return "'" + s + "'"
			case 2:
				return "'''\n" + s + "'''"
			case 3:
				r := ""
				for _, c := range s {
					r += fmt.Sprintf("\\U%08x", c)
				}
				return `"` + r + `"`
			}
			return `"` + strings.NewReplacer("\\", "\\\\", "\t", "\\t").Replace(s) + `"`
		}
		ls := []string{"listen = " + spell(cfg.Listen), "database-url=" + spell(cfg.DatabaseURL)}
		if order == 1 {
			ls[0], ls[1] = ls[1], ls[0]
		}
		content := strings.Join(ls, "\n")
		put(path, content)
		m.atStartup("cfg.toml", content, cfg)
	}, done))
	add("cli-file-prefixes", "L02", 0, 0, "every byte prefix of 4 configuration files, at startup", body(func(m *csim) {
		vs.Freeze(true)
		ws := wholes()
		w := ws[vs.Choose(len(ws))]
		n := vs.Choose(len(w.text) + 1)
		content := w.text[:n]
		put(path, content)
		wanted := w.cfg
		if n < w.min {
			wanted = nil
		}
		m.once = true
		vs.SetEnv(false)
		m.run("-c", path)
		if n >= w.min && n < len(w.text) && m.code == 1 && !m.started {
			return // the rest may be needed for it to be TOML
		}
		m.judge(content, wanted)
	}, done))

	add("cli-file-running", "L02 L03", 0, 1, "every byte prefix of 4 configuration files, written while the program runs; then the rest", body(func(m *csim) {
		vs.Freeze(true)
		put(path, text(lit('1')))
		ws := wholes()
		w := ws[vs.Choose(len(ws))]
		n := vs.Choose(len(w.text) + 1)
		m.start(path, true)
		m.write(path, "")
		m.write(path, w.text[:n])
		vs.WaitIdle()
		for i, c := range m.got {
			if i > 0 && *c != *w.cfg && *c != *lit('1') || n < w.min && *c != *lit('1') {
				vs.Fail("%q was adopted as %s", w.text[:n], show(c))
			}
		}
		if n == len(w.text) && m.last() != show(w.cfg) {
			vs.Fail("%q was written, but the server has %s", w.text, m.last())
		}
		m.write(path, w.text)
		vs.WaitIdle()
		if m.last() != show(w.cfg) {
			vs.Fail("%q was written, after %d bytes of it, but the server has %s", w.text, n, m.last())
		}
		m.finish()
	}, done))

	add("cli-file-paths", "L02 L01", 0, 0, "the file itself in several states (missing, directory, empty, link, dangling link, link to itself, special file, large) and paths written in several ways", body(func(m *csim) {
		vs.Freeze(true)
		good := lit('3')
		sub := filepath.Join(cwd, "sub dir")
		if err := os.MkdirAll(sub, 0o755); err != nil {
			panic(err)
		}
		put(filepath.Join(sub, "x=1,%20é.toml"), text(good))
		put(filepath.Join(cwd, "plain.toml"), text(good))
		put(filepath.Join(cwd, "empty.toml"), "")
		put(filepath.Join(cwd, "large.toml"), strings.Repeat("# "+strings.Repeat("x", 1000)+"\n", 300)+text(good)+strings.Repeat("# tail\n", 30000))
		put(filepath.Join(cwd, "noext"), text(good))
		for n, t := range map[string]string{"link.toml": "plain.toml", "dangling.toml": "nowhere.toml", "self.toml": "self.toml", "linkdir": "sub dir"} {
			os.Remove(filepath.Join(cwd, n))
			if err := os.Symlink(t, filepath.Join(cwd, n)); err != nil {
				panic(err)
			}
		}
		ps := []struct {
			path string
			ok   bool
		}{
			{"plain.toml", true}, {"./plain.toml", true}, {filepath.Join(cwd, "plain.toml"), true}, {"sub dir/../plain.toml", true}, {cwd + "//plain.toml", true}, {"../cwd/plain.toml", true},
			{"sub dir/x=1,%20é.toml", true}, {"linkdir/x=1,%20é.toml", true}, {"link.toml", true}, {"large.toml", true}, {"noext", true},
			{"a$HOME.toml", true}, {"${HOME}x.toml", true}, {"~/x.toml", true}, {"~root.toml", true}, {"%41.toml", true}, {"[x]*?.toml", true}, {"back\\slash.toml", true}, {" spaces .toml ", true}, {"UPPER.TOML", true}, {"a;b&c|d.toml", true},
			{"new\nline.toml", true}, {".hidden", true}, {"x.json", true}, {"x.yaml", true}, {"x.toml~", true}, {".#x.toml", true}, {"bad\xff.toml", true}, {strings.Repeat("n", 250) + ".tml", true}, {strings.Repeat("d/", 300) + "x.toml", true},
			{"nowhere.toml", false}, {"dangling.toml", false}, {"self.toml", false}, {"empty.toml", false}, {"sub dir", false}, {"plain.toml/x", false}, {"nodir/plain.toml", false}, {"/dev/null", false},
			{strings.Repeat("a", 300), false}, {"plain.tom", false}, {"PLAIN.TOML", false}, {"pl*.toml", false}, {"$HOME/plain.toml", false},
		}
		p := ps[vs.Choose(len(ps))]
		if _, err := os.Stat(filepath.Join(cwd, p.path)); p.ok && err != nil && !filepath.IsAbs(p.path) {
			put(filepath.Join(cwd, p.path), text(good))
		}
		wanted := good
		if !p.ok {
			wanted = nil
		}
		m.atStartup(p.path, p.path, wanted)
	}, done))
}
