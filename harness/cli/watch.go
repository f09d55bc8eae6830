package main

import (
	"errors"
	"os"
	"path/filepath"
	"strings"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/vfsnotify"
	"verif.local/mc/vos"
	"verif.local/mc/vs"
)

// start runs the program with the configuration at path until it has settled; the server receives at once if eager.
func (m *csim) start(path string, eager bool) {
	if eager {
		vs.CloseNow(m.gate)
	}
	vs.Go("program", func() { m.run("--config=" + path) })
	vs.WaitIdle()
	if m.returned {
		vs.Fail("the program ended with status %d, %s", m.code, m.outputs())
	}
}

// finish lets the server end and the program with it.
func (m *csim) finish() {
	vs.CloseNow(m.stop)
	vs.WaitIdle()
	if !m.returned || m.code != 0 {
		vs.Fail("the server has ended, but not the program (status %d)", m.code)
	}
}

// write truncates the file and writes content to it, as one step; the kernel queues the notification.
func (m *csim) write(path, content string) {
	vos.Step("edit", true, func() {
		put(path, content)
		vfsnotify.Notify(path, vfsnotify.Write)
	})
}

// quietly is write without a notification.
func (m *csim) quietly(path, content string) {
	vos.Step("edit", true, func() { put(path, content) })
}

// more appends to the file, as one step.
func (m *csim) more(path, content string) {
	vos.Step("append", true, func() {
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		put(path, string(b)+content)
		vfsnotify.Notify(path, vfsnotify.Write)
	})
}

// content is a content of the file during a history.
type content struct {
	text string
	cfg  *server.Config
}

func contents() []content {
	a, b, c := lit('1'), lit('2'), lit('3')
	return []content{
		{text(b), b}, {text(a), a}, {text(c), c},
		{"listen = 'x'\n", nil}, {"listen = \ndatabase-url = 'x'", nil}, {"", nil}, {"listen = 5\ndatabase-url = 'x'\n", nil},
	}
}

// edit puts content into the file in one of several ways.
func (m *csim) edit(path string, c content, how int) {
	switch how {
	case 0:
		m.write(path, c.text)
	case 1:
		m.write(path, "")
		m.more(path, c.text)
	case 2:
		m.write(path, "")
		m.more(path, c.text[:len(c.text)/2])
		m.more(path, c.text[len(c.text)/2:])
	case 3: // another event in between
		vos.Step("chmod", true, func() { vfsnotify.Notify(path, vfsnotify.Chmod) })
		m.write(path, c.text)
		vos.Step("chmod", true, func() { vfsnotify.Notify(path, vfsnotify.Chmod) })
	case 4: // moved away and back before
		vos.Step("move away", true, func() {
			mv(path, path+"~")
			vfsnotify.Notify(path, vfsnotify.Rename)
		})
		vos.Step("move back", true, func() {
			mv(path+"~", path)
			vfsnotify.Notify(path, vfsnotify.Rename)
		})
		m.write(path, c.text)
	}
}

func mv(a, b string) {
	if err := os.Rename(a, b); err != nil {
		panic(err)
	}
}

// settled judges the state after a history of contents.
func (m *csim) settled(hist []content, before content) {
	vs.WaitIdle()
	if m.returned {
		vs.Fail("the program ended with status %d, %s", m.code, m.outputs())
	}
	var names []string
	for _, c := range hist {
		names = append(names, c.text)
	}
	for _, g := range m.got {
		ok := *g == *before.cfg
		for _, c := range hist {
			ok = ok || c.cfg != nil && *g == *c.cfg
		}
		if !ok {
			vs.Fail("file contents %q: the server was given %s", names, show(g))
		}
	}
	if len(m.got) == 0 {
		vs.Fail("the server was given no configuration")
	}
	last := hist[len(hist)-1]
	if last.cfg != nil && m.last() != show(last.cfg) {
		vs.Fail("file contents %q: the server ended up with %s instead of %s", names, m.last(), show(last.cfg))
	}
	prev := before
	if len(hist) > 1 {
		prev = hist[len(hist)-2]
	}
	if last.cfg == nil && prev.cfg != nil && !strings.Contains(m.out.String()+m.err.String(), "level=error") && !strings.Contains(m.out.String()+m.err.String(), "level=warn") {
		vs.Fail("file contents %q: the invalid content was not reported", names)
	}
}

func watchScenarios() {
	path := filepath.Join(cwd, "watched.toml")
	first := content{text(lit('1')), lit('1')}
	done := func(m *csim, x *vs.Exec) string {
		if !m.returned {
			return "the program hangs"
		}
		return ""
	}
	history := func(max, ways int, kinds ...int) func(m *csim) {
		return func(m *csim) {
			vs.Freeze(true)
			put(path, first.text)
			cs := contents()
			eager := vs.Choose(2) == 0
			m.start(path, eager)
			vs.Freeze(false)
			var hist []content
			n := 1 + vs.Choose(max)
			for i := 0; i < n; i++ {
				c := cs[kinds[vs.Choose(len(kinds))]]
				hist = append(hist, c)
				m.edit(path, c, vs.Choose(ways))
				if i < n-1 && vs.Choose(2) == 1 {
					vs.WaitIdle()
				}
			}
			if !eager {
				vs.WaitIdle()
				vs.CloseNow(m.gate)
			}
			m.settled(hist, first)
			vs.Freeze(true)
			m.finish()
		}
	}
	add("cli-watch-1", "L03", 2, 5, "one edit: every content of a set, written in every way (at once, truncated first, in parts, with other events, after the file has been moved away and back), the server receiving at once or later", body(history(1, 5, 0, 1, 2, 3, 4, 5, 6), done))
	add("cli-watch-2", "L03", 1, 3, "up to two edits", body(history(2, 3, 0, 1, 3, 4, 5), done))
	add("cli-watch-3", "L03", 0, 2, "up to three edits", body(history(3, 2, 0, 2, 3, 5), done))

	add("cli-watch-start", "L03", 1, 2, "one edit (at once, or in parts) at every step of the program's start", body(func(m *csim) {
		put(path, first.text)
		cs := contents()[:1]
		how := vs.Choose(3)
		at := vs.Choose(45)
		vs.CloseNow(m.gate)
		vs.GoAt(at, "editor", func() {
			m.edit(path, cs[0], how)
		})
		vs.Go("program", func() { m.run("--config=" + path) })
		vs.WaitIdle()
		if m.returned && !m.started && m.code == 1 && how > 0 {
			return // it found the truncated file
		}
		m.settled([]content{cs[0]}, first)
		vs.Freeze(true)
		m.finish()
	}, done))

	add("cli-watch-many", "L03", 1, 2, "eight edits while the server does not receive", body(func(m *csim) {
		vs.Freeze(true)
		put(path, first.text)
		eager := vs.Choose(2) == 0
		m.start(path, eager)
		vs.Freeze(false)
		cs := contents()
		var hist []content
		for i := 0; i < 8; i++ {
			hist = append(hist, cs[i%3])
			m.write(path, cs[i%3].text)
			if i%2 == 1 {
				vs.WaitIdle()
			}
		}
		if !eager {
			vs.CloseNow(m.gate)
		}
		m.settled(hist, first)
		vs.Freeze(true)
		m.finish()
	}, done))

	add("cli-watch-bad", "L03", 0, 0, "1 to 3000 edits of no use (invalid, empty, incomplete, or valid and the same as before), then a good one, up to three times", long(body(func(m *csim) {
		vs.Freeze(true)
		put(path, first.text)
		m.start(path, true)
		cs := contents()
		n := []int{1, 2, 3, 5, 10, 16, 33, 100, 257, 1030, 3000}[vs.Choose(11)]
		kind := vs.Choose(6)
		for r := 0; r < 3; r++ {
			before := first
			if r > 0 {
				before = cs[r-1]
			}
			for i := 0; i < n; i++ {
				switch {
				case kind < 4:
					m.write(path, cs[3+kind].text)
				case kind == 4:
					m.write(path, cs[3+i%4].text)
				default:
					m.write(path, before.text)
				}
				vs.WaitIdle()
			}
			m.write(path, cs[r].text)
			vs.WaitIdle()
			if m.last() != show(cs[r].cfg) {
				vs.Fail("after %d edits of no use (%d), content %q: the server has %s", (r+1)*n, kind, cs[r].text, m.last())
			}
			for _, g := range m.got {
				ok := *g == *first.cfg
				for i := 0; i <= r; i++ {
					ok = ok || *g == *cs[i].cfg
				}
				if !ok {
					vs.Fail("the server was given %s", show(g))
				}
			}
		}
		m.finish()
	}, done)))

	add("cli-watch-errors", "L03", 1, 3, "the kernel reports a failure, or that it lost notifications, around up to two edits", body(func(m *csim) {
		vs.Freeze(true)
		put(path, first.text)
		m.start(path, true)
		vs.Freeze(false)
		cs := contents()
		var hist []content
		for i, n := 0, 1+vs.Choose(2); i < n; i++ {
			c := cs[[]int{0, 2, 4}[vs.Choose(3)]]
			hist = append(hist, c)
			switch vs.Choose(4) {
			case 0:
				m.write(path, c.text)
			case 1:
				vos.Step("failure", true, func() { vfsnotify.NotifyErr(errors.New("zz-failure")) })
				m.write(path, c.text)
			case 2:
				m.write(path, c.text)
				vos.Step("failure", true, func() { vfsnotify.NotifyErr(errors.New("zz-failure")) })
			case 3:
				m.quietly(path, c.text)
				vos.Step("overflow", true, func() { vfsnotify.NotifyErr(vfsnotify.ErrEventOverflow) })
			}
			if vs.Choose(2) == 1 {
				vs.WaitIdle()
			}
		}
		m.settled(hist, first)
		vs.Freeze(true)
		m.finish()
	}, done))

	add("cli-watch-fails", "L03", 1, 2, "the watch cannot be set up", body(func(m *csim) {
		put(path, first.text)
		if vs.Choose(2) == 0 {
			vfsnotify.W().FailNew = errors.New("zz-too-many-instances")
		} else {
			vfsnotify.W().FailAdd = errors.New("zz-too-many-watches")
		}
		m.once = true
		vs.SetEnv(false)
		m.run("-c", path)
		if m.started || m.code != 1 || !strings.Contains(m.err.String(), "zz-too-many") {
			vs.Fail("the watch cannot be set up: server started %v, status %d, %s", m.started, m.code, m.outputs())
		}
	}, func(m *csim, x *vs.Exec) string {
		if !m.returned {
			return "the program hangs"
		}
		for _, w := range vfsnotify.W().Watchers {
			if !w.IsClosed() {
				return "a watcher was left behind"
			}
		}
		return ""
	}))

	add("cli-watch-links", "L03", 0, 1, "paths written in several ways, links among them", body(func(m *csim) {
		put(path, first.text)
		os.Remove(filepath.Join(cwd, "w-link.toml"))
		if err := os.Symlink("watched.toml", filepath.Join(cwd, "w-link.toml")); err != nil {
			panic(err)
		}
		p := []string{"watched.toml", "./watched.toml", path, "../cwd/watched.toml", cwd + "//./watched.toml", "w-link.toml", filepath.Join(cwd, "w-link.toml")}[vs.Choose(7)]
		m.start(p, true)
		c := contents()[0]
		m.write(path, c.text)
		m.settled([]content{c}, first)
		m.finish()
	}, done))
}
