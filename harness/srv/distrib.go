package main

import (
	"fmt"
	"strings"

	"github.com/hired/gevulot/pkg/server"

	"verif.local/mc/h"
	"verif.local/mc/vs"
)

// filter is a subscription filter and its name.
type filter struct {
	name string
	f    func(o, n *server.Config) bool
}

var (
	fListen = filter{"listen", func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen }}
	fURL    = filter{"url-not-first", func(o, n *server.Config) bool { return o != nil && o.DatabaseURL != n.DatabaseURL }}
	fEven   = filter{"even", func(o, n *server.Config) bool { return strings.HasSuffix(n.DatabaseURL, "2") }}
)

// mk makes n configurations; listen addresses alternate in pairs: 1 1 2 2 3 …, or by the given pattern.
func mkConfigs(pattern string) []*server.Config {
	var r []*server.Config
	for i, c := range pattern {
		r = append(r, &server.Config{Listen: "127.0.0.1:100" + string(c), DatabaseURL: fmt.Sprintf("postgres://u@h/db%d", i+1)})
	}
	return r
}

// dsim is one distributor with ghost state.
type dsim struct {
	p    *server.ConfigDistributor
	src  chan *server.Config
	cfgs []*server.Config

	offered  vs.Ghost[int]  // configurations whose sending has begun
	settled  vs.Ghost[int]  // lower bound of the configurations taken over
	received vs.Ghost[int]  // sent on an unbuffered source: lower bound of what Get may return
	closing  vs.Ghost[bool] // Close begun, or source closed
	closed   vs.Ghost[bool] // a Close call has returned
	srcEnded bool

	calls []string // API calls in progress at the end
	subs  []*dsub
}

type dsub struct {
	d       *dsim
	name    string
	filters []filter
	ch      chan *server.Config
	got     []int
	lo, hi  int // bounds of the configurations taken over when Subscribe took effect
	err     error
	subbed  bool // Subscribe returned nil
	cut     int  // values delivered when Unsubscribe or Close returned, plus one
	keeps   bool // keeps receiving
	stopped bool // unsubscription (or close) has begun: the sequence may be cut
}

func newDsim(buf int, pattern string) *dsim {
	d := &dsim{src: make(chan *server.Config, buf), cfgs: mkConfigs(pattern)}
	d.p = server.NewConfigDistributor(d.src)
	return d
}

func (d *dsim) index(c *server.Config) int {
	for i, k := range d.cfgs {
		if k == c {
			return i + 1
		}
	}
	for i, k := range d.cfgs { // an equal copy will do
		if c != nil && *k == *c {
			return i + 1
		}
	}
	return 0
}

func (d *dsim) atLeast(k int) { d.settled.Update(func(v int) int { return max(v, k) }) }

// send sends the i-th configuration to the distributor.
func (d *dsim) send(i int) {
	d.offered.Update(func(v int) int { return max(v, i) })
	vs.SendTo((chan<- *server.Config)(d.src), "source send")(d.cfgs[i-1])
	if cap(d.src) == 0 {
		d.received.Update(func(v int) int { return max(v, i) })
	}
}

// call records that an API call is in progress.
func (d *dsim) call(what string, f func()) {
	k := len(d.calls)
	d.calls = append(d.calls, what)
	f()
	d.calls[k] = ""
}

// get calls Get and judges its result; it returns the index of the configuration or 0.
func (d *dsim) get(who string) (r int) {
	lo, wasClosed := max(d.settled.Get(), d.received.Get()), d.closed.Get()
	d.call(who+": Get", func() {
		c, err := d.p.Get()
		if err != nil {
			if err != server.ErrConfigDistributorClosed {
				vs.Fail("%s: Get returned the error %v", who, err)
			}
			if !d.closing.Get() {
				vs.Fail("%s: Get returned the closed error although nothing was closed", who)
			}
			return
		}
		if c == nil {
			vs.Fail("%s: Get returned neither a configuration nor an error", who)
		}
		if wasClosed {
			vs.Fail("%s: Get returned a configuration after the distributor was closed", who)
		}
		r = d.index(c)
		if r == 0 {
			vs.Fail("%s: Get returned an unknown configuration %+v", who, *c)
		}
		if r < lo {
			vs.Fail("%s: Get returned configuration %d although %d had been taken over before the call", who, r, lo)
		}
		if o := d.offered.Get(); r > o {
			vs.Fail("%s: Get returned configuration %d before it was sent", who, r)
		}
		d.atLeast(r)
	})
	vs.Log("%s=%d", who, r)
	return
}

func (d *dsim) closeIt(who string) {
	d.closing.Set(true)
	for _, s := range d.subs {
		s.stopped = true
	}
	d.call(who+": Close", d.p.Close)
	d.closed.Set(true)
	for _, s := range d.subs {
		s.freeze()
	}
}

// sub makes a subscriber, without subscribing it.
func (d *dsim) sub(name string, buf int, fs ...filter) *dsub {
	s := &dsub{d: d, name: name, ch: make(chan *server.Config, buf), filters: fs}
	d.subs = append(d.subs, s)
	return s
}

func (s *dsub) subscribe() error {
	d := s.d
	var checks []server.ConfigChangedCheckFn
	for _, f := range s.filters {
		f := f
		checks = append(checks, func(o, n *server.Config) bool {
			i, j := d.index(o), d.index(n)
			if n == nil || j == 0 || (o != nil && i != j-1) {
				vs.Fail("%s: filter called with configurations %d and %d", s.name, i, j)
			}
			return f.f(o, n)
		})
	}
	s.lo = d.settled.Get()
	wasClosed := d.closed.Get()
	d.call(s.name+": Subscribe", func() { s.err = d.p.Subscribe(s.ch, checks...) })
	s.hi = d.offered.Get()
	if s.err != nil {
		if s.err != server.ErrConfigDistributorClosed || !d.closing.Get() {
			vs.Fail("%s: Subscribe returned %v", s.name, s.err)
		}
	} else {
		if wasClosed {
			vs.Fail("%s: Subscribe succeeded after the distributor was closed", s.name)
		}
		s.subbed = true
	}
	return s.err
}

// receive starts a thread that keeps receiving.
func (s *dsub) receive() {
	s.keeps = true
	vs.GoEnv("receiver", func() {
		for {
			c, ok := vs.Recv2((<-chan *server.Config)(s.ch), s.name+" receive")
			if !ok {
				return
			}
			s.take(c)
		}
	})
}

// freeze records that nothing may be delivered any more.
func (s *dsub) freeze() {
	if s.cut == 0 {
		s.cut = vs.Delivered(s.ch) + 1
	}
}

func (s *dsub) take(c *server.Config) {
	k := s.d.index(c)
	if k == 0 {
		vs.Fail("%s: received an unknown configuration", s.name)
	}
	s.d.atLeast(k)
	s.got = append(s.got, k)
	vs.Log("%s:%d", s.name, k)
}

func (s *dsub) pass(o, n *server.Config) bool {
	for _, f := range s.filters {
		if f.f(o, n) {
			return true
		}
	}
	return len(s.filters) == 0
}

// expected is what the subscriber must get when Subscribe takes effect after k configurations.
func (s *dsub) expected(k int) []int {
	var r []int
	var old *server.Config
	for i, c := range s.d.cfgs {
		if i+1 == k && s.pass(nil, c) || i+1 > k && s.pass(old, c) {
			r = append(r, i+1)
		}
		old = c
	}
	return r
}

func (s *dsub) verdict() string {
	if !s.subbed && len(s.got) > 0 && s.err != nil {
		return fmt.Sprintf("%s: Subscribe failed but %v was delivered", s.name, s.got)
	}
	if !s.subbed {
		return ""
	}
	var want []string
	for k := s.lo; k <= s.hi; k++ {
		e := s.expected(k)
		full := s.keeps && !s.stopped
		if len(s.got) > len(e) || full && len(s.got) != len(e) {
			want = append(want, fmt.Sprint(e))
			continue
		}
		ok := true
		for i := range s.got {
			ok = ok && s.got[i] == e[i]
		}
		if ok {
			return ""
		}
		want = append(want, fmt.Sprint(e))
	}
	return fmt.Sprintf("%s: received the configurations %v, expected %s", s.name, s.got, strings.Join(want, " or "))
}

// unsubscribe cancels the subscription and closes the channel.
func (s *dsub) unsubscribe() {
	s.stopped = true
	s.d.call(s.name+": Unsubscribe", func() { s.d.p.Unsubscribe(s.ch) })
	s.freeze()
	vs.Close((chan<- *server.Config)(s.ch), s.name+" close")
}

// end judges a finished execution: every call has returned, except those listed.
func (d *dsim) end(x *vs.Exec, mayBlock ...string) string {
	for _, c := range d.calls {
		if c == "" {
			continue
		}
		may := false
		for _, m := range mayBlock {
			may = may || strings.HasSuffix(c, m)
		}
		if !may {
			return c + " never returned"
		}
	}
	for _, s := range d.subs {
		if n := vs.Delivered(s.ch); s.cut > 0 && n > s.cut-1 {
			return fmt.Sprintf("%s: %d configurations were delivered after Unsubscribe or Close had returned", s.name, n-s.cut+1)
		}
		if v := s.verdict(); v != "" {
			return v
		}
	}
	return ""
}

func noLeftovers(x *vs.Exec) string {
	for _, u := range x.Unfinished() {
		if !u.Env {
			return "still running after Close: " + u.Name + " at " + u.Op
		}
	}
	return ""
}

// dist makes a scenario: body gets a fresh distributor; end gets the final verdict.
func dist(buf int, pattern string, body func(d *dsim), end func(d *dsim, x *vs.Exec) string) func() *vs.Scenario {
	return func() *vs.Scenario {
		var d *dsim
		return &vs.Scenario{
			Body: func() {
				d = newDsim(buf, pattern)
				vs.SetEnv(true)
				body(d)
			},
			End: func(x *vs.Exec) string {
				if end == nil {
					return d.end(x)
				}
				return end(d, x)
			},
		}
	}
}

func (d *dsim) produce(from, to int) func() {
	return func() {
		for i := from; i <= to; i++ {
			d.send(i)
		}
	}
}

func (d *dsim) reader(name string, n int) {
	vs.GoEnv(name, func() {
		for i := 0; i < n; i++ {
			d.get(name)
		}
	})
}

// backlog sends updates to subscribers that are not always there to receive them.
func backlog(sizes []int) {
	n := sizes[vs.Choose(len(sizes))]
	period := []int{0, 2, 1}[vs.Choose(3)] // 0: all different
	var cfgs []*server.Config
	for i := 0; i < n; i++ {
		k := i
		if period > 0 {
			k = i % period
		}
		cfgs = append(cfgs, &server.Config{Listen: fmt.Sprintf("127.0.0.1:%d", 1000+k), DatabaseURL: "postgres://u@h/db"})
	}
	src := make(chan *server.Config, vs.Choose(2)*4)
	p := server.NewConfigDistributor(src)
	room := vs.Choose(2) * 2
	busy := vs.Choose(3)   // 0: only before the first one; 1: before every tenth; 2: never
	filter := vs.Choose(3) // of the second subscriber: 0: none; 1: by the listen setting; 2: one that lets everything pass
	filtered := filter == 1
	type sub struct {
		ch        chan *server.Config
		got, want []*server.Config
		gate      chan struct{}
	}
	var subs []*sub
	for k := 0; k < 2; k++ {
		s := &sub{ch: make(chan *server.Config, room), gate: make(chan struct{}, 1)}
		var checks []server.ConfigChangedCheckFn
		var old *server.Config
		for _, c := range cfgs {
			if !filtered || k == 0 || old == nil || old.Listen != c.Listen {
				s.want = append(s.want, c)
			}
			old = c
		}
		if filtered && k == 1 {
			checks = append(checks, func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen })
		}
		if filter == 2 && k == 1 {
			checks = append(checks, func(o, n *server.Config) bool { return false }, func(o, n *server.Config) bool { return true })
		}
		if err := p.Subscribe(s.ch, checks...); err != nil {
			vs.Fail("Subscribe returned %v", err)
		}
		subs = append(subs, s)
		vs.GoEnv("receiver", func() {
			for i := 0; ; i++ {
				if i == 0 && busy == 0 || i%10 == 0 && busy == 1 {
					vs.Recv((<-chan struct{})(s.gate), "busy")
				}
				c, ok := vs.Recv2((<-chan *server.Config)(s.ch), "receive")
				if !ok {
					return
				}
				s.got = append(s.got, c)
			}
		})
	}
	for _, c := range cfgs {
		vs.SendTo((chan<- *server.Config)(src), "source send")(c)
	}
	vs.WaitIdle()
	if c, err := p.Get(); err != nil || c == nil || *c != *cfgs[n-1] {
		vs.Fail("after %d updates Get returned %v, %v", n, c, err)
	}
	for _, s := range subs {
		vs.CloseNow(s.gate)
	}
	vs.WaitIdle()
	for k, s := range subs {
		what := fmt.Sprintf("subscriber %d of %d updates (period %d, room %d, busy %d, filter %d)", k+1, n, period, room, busy, filter*k)
		for i, c := range s.got {
			if i >= len(s.want) || *c != *s.want[i] {
				vs.Fail("%s: got %+v as number %d of %d", what, *c, i+1, len(s.want))
			}
		}
		if len(s.got) != len(s.want) {
			vs.Fail("%s: got %d of %d", what, len(s.got), len(s.want))
		}
	}
	p.Close()
}

// values sends configurations of all kinds and judges what Get returns and what subscribers get.
func values() {
	all := []*server.Config{{}, {Listen: "127.0.0.1:1"}, {DatabaseURL: "postgres://u@h/db"}, {Listen: "127.0.0.1:1", DatabaseURL: "postgres://u@h/db"}, {Listen: " ", DatabaseURL: "\x00"}}
	src := make(chan *server.Config, vs.Choose(2)*4)
	p := server.NewConfigDistributor(src)
	ch := make(chan *server.Config, 8)
	if err := p.Subscribe(ch); err != nil {
		vs.Fail("Subscribe returned %v", err)
	}
	var want []*server.Config
	for i := 0; i < 3; i++ {
		c := all[vs.Choose(len(all))]
		want = append(want, c)
		vs.SendTo((chan<- *server.Config)(src), "source send")(c)
		done := false
		vs.GoEnv("get", func() {
			vs.SetEnv(false)
			g, err := p.Get()
			vs.SetEnv(true)
			done = true
			ok := false
			for k, w := range want {
				ok = ok || g != nil && *g == *w && k >= len(want)-2
			}
			if err != nil || !ok {
				vs.Fail("after the configurations %v Get returned %+v, %v", want, g, err)
			}
		})
		vs.WaitIdle()
		if !done {
			vs.Fail("Get does not return although there is the configuration %+v", *c)
		}
		if g, err := p.Get(); err != nil || g == nil || *g != *c {
			vs.Fail("Get returned %+v, %v after the configuration %+v", g, err, *c)
		}
	}
	for i, w := range want {
		if g, ok := vs.Recv2((<-chan *server.Config)(ch), "receive"); !ok || *g != *w {
			vs.Fail("the subscriber got %+v as configuration %d, expected %+v", g, i+1, *w)
		}
	}
	p.Close()
}

func tryRecv(ch <-chan *server.Config) (*server.Config, bool) {
	c := vs.RecvCase(ch)
	ok := vs.Select("poll", true, c) == 0
	return c.Val, ok
}

// again lets two channels be subscribed and unsubscribed over and over, in every order of operations.
func again(depth int) func() {
	return func() {
		vs.Freeze(true)
		room := []int{0, 1, 3}[vs.Choose(3)]
		src := make(chan *server.Config)
		p := server.NewConfigDistributor(src)
		type sub struct {
			ch       chan *server.Config
			on       bool
			filtered bool
			want     []*server.Config
		}
		a, b := &sub{ch: make(chan *server.Config, room)}, &sub{ch: make(chan *server.Config, 100), on: true}
		if err := p.Subscribe(b.ch); err != nil {
			vs.Fail("Subscribe returned %v", err)
		}
		var cur *server.Config
		hist := ""
		step := func(s *sub, filtered bool) {
			if s.on {
				p.Unsubscribe(s.ch)
				s.on = false
				if len(s.want) > cap(s.ch) {
					s.want = s.want[:cap(s.ch)]
				}
				return
			}
			var checks []server.ConfigChangedCheckFn
			if filtered {
				checks = append(checks, func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen })
			}
			if err := p.Subscribe(s.ch, checks...); err != nil {
				vs.Fail("%s: Subscribe returned %v", hist, err)
			}
			s.on, s.filtered = true, filtered
			if cur != nil {
				s.want = append(s.want, cur)
			}
		}
		receive := func(s *sub, what string) {
			for i, w := range s.want {
				vs.WaitIdle()
				g, ok := tryRecv(s.ch)
				if !ok && cap(s.ch) == 0 {
					// a receiver has to be there
					done := false
					vs.GoEnv("receiver", func() {
						g = vs.Recv((<-chan *server.Config)(s.ch), "receive")
						done = true
					})
					vs.WaitIdle()
					ok = done
				}
				if !ok || g == nil || *g != *w {
					vs.Fail("%s: %s got %+v as number %d of %d, expected %+v", hist, what, g, i+1, len(s.want), *w)
				}
			}
			s.want = nil
			vs.WaitIdle()
			if g, ok := tryRecv(s.ch); ok {
				vs.Fail("%s: %s got %+v on top", hist, what, g)
			}
		}
		n := 0
		for i := 0; i < depth; i++ {
			switch vs.Choose(5) {
			case 0:
				hist += "update "
				c := &server.Config{Listen: fmt.Sprint("l", n/2), DatabaseURL: fmt.Sprint("u", n)}
				n++
				vs.SendTo((chan<- *server.Config)(src), "source send")(c)
				for _, s := range []*sub{a, b} {
					if s.on && (!s.filtered || cur == nil || cur.Listen != c.Listen) {
						s.want = append(s.want, c)
					}
				}
				cur = c
			case 1:
				hist += "toggle "
				step(a, false)
			case 2:
				hist += "toggle(filtered) "
				step(a, true)
			case 3:
				hist += "receive "
				receive(a, "the channel")
			case 4:
				hist += "toggle-other "
				step(b, false)
			}
			vs.WaitIdle()
		}
		if a.on {
			receive(a, "the channel")
		}
		receive(b, "the other channel")
		p.Close()
	}
}

// manySubs has many subscribers.
func manySubs() {
	vs.Freeze(true)
	n := []int{3, 9, 17, 33, 65, 129, 300}[vs.Choose(7)]
	src := make(chan *server.Config)
	p := server.NewConfigDistributor(src)
	chs := make([]chan *server.Config, n)
	slow := vs.Choose(2) == 1 // none of them receives until the end
	got := make([][]*server.Config, n)
	for i := range chs {
		chs[i] = make(chan *server.Config, i%2*2)
		var checks []server.ConfigChangedCheckFn
		if i%3 == 0 {
			checks = append(checks, func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen })
		}
		if err := p.Subscribe(chs[i], checks...); err != nil {
			vs.Fail("Subscribe number %d returned %v", i+1, err)
		}
	}
	receive := func() {
		for i := range chs {
			i := i
			vs.GoEnv("receiver", func() {
				for {
					c, ok := vs.Recv2((<-chan *server.Config)(chs[i]), "receive")
					if !ok {
						return
					}
					got[i] = append(got[i], c)
				}
			})
		}
	}
	if !slow {
		receive()
	}
	cfgs := []*server.Config{{Listen: "a"}, {Listen: "b"}, {Listen: "b", DatabaseURL: "u"}}
	for _, c := range cfgs {
		vs.SendTo((chan<- *server.Config)(src), "source send")(c)
	}
	if slow {
		vs.WaitIdle()
		receive()
	}
	vs.WaitIdle()
	for i := range chs {
		want := cfgs
		if i%3 == 0 {
			want = cfgs[:2]
		}
		if len(got[i]) != len(want) {
			vs.Fail("subscriber %d of %d got %d updates, expected %d", i+1, n, len(got[i]), len(want))
		}
		for j := range want {
			if *got[i][j] != *want[j] {
				vs.Fail("subscriber %d of %d got %+v as update %d", i+1, n, *got[i][j], j+1)
			}
		}
	}
	// every second one goes
	for i := 0; i < n; i += 2 {
		p.Unsubscribe(chs[i])
	}
	vs.SendTo((chan<- *server.Config)(src), "source send")(&server.Config{Listen: "c"})
	vs.WaitIdle()
	for i := range chs {
		want := 3
		if i%3 == 0 {
			want = 2
		}
		if i%2 == 1 {
			want++
		}
		if len(got[i]) != want {
			vs.Fail("subscriber %d of %d: %d updates after every second one had gone, expected %d", i+1, n, len(got[i]), want)
		}
	}
	p.Close()
}

func init() {
	big := func(body func()) func() *vs.Scenario {
		return func() *vs.Scenario {
			return &vs.Scenario{Body: func() {
				vs.SetEnv(true)
				body()
			}, End: func(x *vs.Exec) string { return noLeftovers(x) }, MaxSteps: 1000000}
		}
	}
	h.Add(&h.Sc{Name: "dist-values", Props: []string{"D01", "D02", "R01"}, What: "every sequence of 3 of 5 configurations, with empty and odd settings: Get and a subscriber see them as they were sent", Make: big(values), Mode: vs.Delay, Quick: 0, Thorough: 2})
	h.Add(&h.Sc{Name: "dist-many-subs", Props: []string{"D02", "D03", "R01"}, What: "3 to 300 subscribers, filtered or not, that receive at once or late: each one gets each update; those that leave get nothing more", Make: big(manySubs), Mode: vs.Delay, Quick: 0, Thorough: 0})
	add := func(name string, props []string, q, t int, mode, what string, mk func() *vs.Scenario) {
		if strings.HasPrefix(name, "dist-sub-") && strings.HasSuffix(name, "-b0") {
			q = 3
		}
		h.Add(&h.Sc{Name: name, Props: append(props, "R01"), What: what, Make: mk, Mode: mode, Quick: q, Thorough: t})
	}
	for _, buf := range []int{0, 1} {
		buf := buf
		add(fmt.Sprintf("dist-get-updates-b%d", buf), []string{"D01"}, 4, 12, vs.Delay, "2 readers, 2 updates, then a quiescent read",
			dist(buf, "12", func(d *dsim) {
				d.reader("r1", 2)
				d.reader("r2", 1)
				vs.GoEnv("producer", d.produce(1, 2))
				vs.WaitIdle()
				d.atLeast(2)
				d.get("final")
			}, nil))
		add(fmt.Sprintf("dist-get-close-b%d", buf), []string{"D01", "D03"}, 4, 12, vs.Delay, "2 readers, 1 update, concurrent Close calls",
			dist(buf, "1", func(d *dsim) {
				d.reader("r1", 2)
				d.reader("r2", 1)
				vs.GoEnv("producer", d.produce(1, 1))
				vs.GoEnv("closer", func() { d.closeIt("c1") })
				d.closeIt("c2")
				d.get("after")
			}, func(d *dsim, x *vs.Exec) string {
				if v := d.end(x); v != "" {
					return v
				}
				return noLeftovers(x)
			}))
	}
	add("dist-get-source-end", []string{"D01"}, 4, 12, vs.Delay, "2 readers, 1 update, then the source ends",
		dist(1, "1", func(d *dsim) {
			d.reader("r1", 2)
			d.reader("r2", 1)
			vs.GoEnv("producer", func() {
				d.send(1)
				d.closing.Set(true)
				vs.Close((chan<- *server.Config)(d.src), "end of source")
			})
			vs.WaitIdle()
			d.closed.Set(true)
			d.get("after")
		}, nil))
	add("dist-get-empty-source-end", []string{"D01"}, 4, 12, vs.Delay, "2 readers and a source that ends at once",
		dist(0, "", func(d *dsim) {
			d.reader("r1", 1)
			d.reader("r2", 1)
			vs.GoEnv("producer", func() {
				d.closing.Set(true)
				vs.Close((chan<- *server.Config)(d.src), "end of source")
			})
		}, nil))
	add("dist-get-waits", []string{"D01"}, 4, 12, vs.Delay, "readers before any configuration: they wait",
		dist(0, "1", func(d *dsim) {
			d.reader("r1", 1)
			d.reader("r2", 1)
			vs.WaitIdle()
			n := 0
			for _, c := range d.calls {
				if c != "" {
					n++
				}
			}
			if n != 2 {
				vs.Fail("a Get call returned before there was a configuration")
			}
			vs.GoEnv("producer", d.produce(1, 1))
		}, nil))
	add("dist-get-stalled-sub", []string{"D01", "D02", "D03"}, 4, 12, vs.Delay, "a subscriber that never receives, one that does, a reader, 2 updates, Close at the end",
		dist(0, "12", func(d *dsim) {
			st := d.sub("stalled", 0)
			vs.GoEnv("stalled", func() { st.subscribe() })
			s := d.sub("s", 1)
			s.receive()
			vs.GoEnv("subscriber", func() { s.subscribe() })
			d.reader("r1", 2)
			vs.GoEnv("producer", d.produce(1, 2))
			vs.WaitIdle()
			d.atLeast(2)
			d.get("final")
			if len(s.got) == 0 || s.got[len(s.got)-1] != 2 {
				vs.Fail("the receiving subscriber got %v", s.got)
			}
			d.closeIt("c")
		}, func(d *dsim, x *vs.Exec) string {
			if v := d.end(x); v != "" {
				return v
			}
			return noLeftovers(x)
		}))
	add("dist-get-churn", []string{"D01", "D03"}, 4, 12, vs.Delay, "a reader, a subscriber that comes and goes without ever receiving, 2 updates",
		dist(1, "12", func(d *dsim) {
			s := d.sub("s", 0)
			vs.GoEnv("churn", func() {
				if s.subscribe() == nil {
					s.unsubscribe()
				}
			})
			d.reader("r1", 2)
			vs.GoEnv("producer", d.produce(1, 2))
			vs.WaitIdle()
			d.atLeast(2)
			d.get("final")
		}, nil))

	// subscriptions
	fsets := []struct {
		name string
		a, b []filter
	}{
		{"none-listen", nil, []filter{fListen}},
		{"url-even", []filter{fURL}, []filter{fEven, fListen}},
	}
	for _, fs := range fsets {
		fs := fs
		for _, buf := range []int{0, 1} {
			buf := buf
			add(fmt.Sprintf("dist-sub-%s-b%d", fs.name, buf), []string{"D02"}, 4, 12, vs.Delay, "2 receiving subscribers with filters, subscribed while 3 updates are sent",
				dist(1, "112", func(d *dsim) {
					s1, s2 := d.sub("s1", buf, fs.a...), d.sub("s2", buf, fs.b...)
					s1.receive()
					s2.receive()
					vs.GoEnv("producer", d.produce(1, 3))
					vs.GoEnv("subscriber2", func() { s2.subscribe() })
					s1.subscribe()
				}, nil))
			add(fmt.Sprintf("dist-sub-late-%s-b%d", fs.name, buf), []string{"D02"}, 4, 12, vs.Delay, "a subscriber that joins when 2 of 4 configurations have been taken over",
				dist(1, "1122", func(d *dsim) {
					s1, s2 := d.sub("s1", buf, fs.a...), d.sub("s2", buf, fs.b...)
					s1.receive()
					s1.subscribe()
					d.send(1)
					d.send(2)
					vs.WaitIdle()
					d.atLeast(2)
					vs.GoEnv("producer", d.produce(3, 4))
					s2.receive()
					s2.subscribe()
				}, nil))
		}
	}
	add("dist-filters", []string{"D02"}, 0, 1, vs.Delay, "2 subscribers (and one without filter) with 11 sets of up to 2 filters, joining before or in the middle of every sequence of 4 configurations over 4 contents",
		filters)
	add("dist-sub-source-end", []string{"D02"}, 4, 12, vs.Delay, "a slow subscriber, 2 updates, then the source ends: everything sent before is still delivered",
		dist(1, "12", func(d *dsim) {
			s := d.sub("s", 0)
			s.subscribe()
			s.receive()
			d.send(1)
			d.send(2)
			d.closing.Set(true)
			vs.Close((chan<- *server.Config)(d.src), "end of source")
		}, nil))
	h.Add(&h.Sc{Name: "dist-again", Props: []string{"D02", "D03"}, What: "every sequence of 6 operations (an update, one of two channels joins or leaves, with or without filter, a channel receives what there is): also a channel that joins again gets what it is to get, and nothing else", Make: big(again(6)), Mode: vs.Delay})
	h.Add(&h.Sc{Name: "dist-again-7", Props: []string{"D02", "D03"}, What: "dist-again with 7 operations", Make: big(again(7)), Mode: vs.Delay, ThoroughOnly: true})
	add("dist-sub-again", []string{"D02", "D03"}, 5, 8, vs.Delay, "a receiving channel that joins, leaves and joins again while 2 updates are sent, beside a reader: it ends up with the last configuration",
		func() *vs.Scenario {
			return &vs.Scenario{Body: func() {
				vs.SetEnv(true)
				src := make(chan *server.Config)
				p := server.NewConfigDistributor(src)
				ch := make(chan *server.Config, vs.Choose(2))
				cfgs := []*server.Config{{Listen: "a"}, {Listen: "b"}}
				var got []*server.Config
				vs.GoEnv("receiver", func() {
					for {
						got = append(got, vs.Recv((<-chan *server.Config)(ch), "receive"))
					}
				})
				vs.GoEnv("churn", func() {
					for i := 0; i < 2; i++ {
						if err := p.Subscribe(ch); err != nil {
							vs.Fail("Subscribe returned %v", err)
						}
						if i == 0 {
							p.Unsubscribe(ch)
						}
					}
				})
				vs.GoEnv("producer", func() {
					for _, c := range cfgs {
						vs.SendTo((chan<- *server.Config)(src), "source send")(c)
					}
				})
				vs.WaitIdle()
				if len(got) == 0 || got[len(got)-1] != cfgs[1] {
					vs.Fail("the channel that joined again got %d configurations and not the last one in the end", len(got))
				}
				for i := 1; i < len(got); i++ {
					if got[i-1] == cfgs[1] && got[i] == cfgs[0] {
						vs.Fail("an older configuration after a newer one")
					}
				}
				p.Close()
			}, End: noLeftovers}
		})
	addBacklog := func(what string, sizes []int) {
		h.Add(&h.Sc{Name: "dist-backlog", Props: []string{"D02", "D01"}, What: what, Mode: vs.Delay, Make: func() *vs.Scenario {
			return &vs.Scenario{MaxSteps: 2000000, Body: func() { vs.SetEnv(true); vs.Freeze(true); backlog(sizes) }, End: func(*vs.Exec) string { return "" }}
		}})
	}
	addBacklog("1 to 5000 updates, all different, alternating between two contents or all alike, arrive while 2 subscribers (filtered or not, with and without room) are busy at the first one, at every tenth or not at all: each gets all it is to get, in order", []int{1, 2, 5, 9, 17, 33, 65, 101, 129, 257, 513, 1030, 5000})
	add("dist-sub-self", []string{"D02", "D01"}, 4, 12, vs.Delay, "a thread that subscribes with an unbuffered channel and then receives",
		dist(1, "12", func(d *dsim) {
			d.reader("r1", 1)
			vs.GoEnv("producer", d.produce(1, 2))
			s := d.sub("s", 0)
			vs.GoEnv("subscriber", func() {
				s.subscribe()
				s.receive()
			})
		}, nil))
	add("dist-unsub-stalled", []string{"D03"}, 4, 12, vs.Delay, "cancelling a subscription that does not receive, channel closed afterwards; another one keeps receiving",
		dist(1, "123", func(d *dsim) {
			s1, s2 := d.sub("s1", 0), d.sub("s2", 1)
			s1.subscribe()
			s2.subscribe()
			s2.receive()
			vs.GoEnv("producer", d.produce(1, 3))
			s1.unsubscribe()
		}, nil))
	add("dist-unsub-buffered", []string{"D03"}, 4, 12, vs.Delay, "cancelling a subscription whose channel has room, channel closed afterwards; a reader",
		dist(1, "123", func(d *dsim) {
			s1 := d.sub("s1", 1)
			s1.subscribe()
			vs.GoEnv("producer", d.produce(1, 3))
			d.reader("r1", 1)
			s1.unsubscribe()
		}, nil))
	add("dist-unsub-receiving", []string{"D03", "D02"}, 4, 12, vs.Delay, "cancelling a subscription that keeps receiving",
		dist(1, "123", func(d *dsim) {
			s1, s2 := d.sub("s1", 0), d.sub("s2", 0, fListen)
			s1.receive()
			s2.receive()
			s1.subscribe()
			s2.subscribe()
			vs.GoEnv("producer", d.produce(1, 3))
			s1.unsubscribe()
		}, nil))
	add("dist-unsub-twice", []string{"D03"}, 4, 12, vs.Delay, "concurrent cancellation, cancellation of an unknown channel and Close",
		dist(1, "12", func(d *dsim) {
			s1 := d.sub("s1", 0)
			s1.subscribe()
			vs.GoEnv("producer", d.produce(1, 2))
			vs.GoEnv("other", func() {
				s1.stopped = true
				d.call("unsubscribe twice", func() { d.p.Unsubscribe(s1.ch) })
				d.call("unsubscribe unknown", func() { d.p.Unsubscribe(make(chan *server.Config)) })
			})
			vs.GoEnv("closer", func() { d.closeIt("c") })
			s1.unsubscribe()
		}, func(d *dsim, x *vs.Exec) string {
			if v := d.end(x); v != "" {
				return v
			}
			return noLeftovers(x)
		}))
	for _, buf := range []int{0, 1} {
		buf := buf
		add(fmt.Sprintf("dist-close-stalled-b%d", buf), []string{"D03"}, 4, 12, vs.Delay, "2 Close calls with a subscriber that never receives; its channel is closed afterwards",
			dist(1, "12", func(d *dsim) {
				s1 := d.sub("s1", buf)
				s1.subscribe()
				vs.GoEnv("producer", d.produce(1, 2))
				vs.GoEnv("closer", func() {
					d.closeIt("c1")
				})
				d.closeIt("c2")
				vs.Close((chan<- *server.Config)(s1.ch), "close after Close")
			}, func(d *dsim, x *vs.Exec) string {
				if v := d.end(x); v != "" {
					return v
				}
				return noLeftovers(x)
			}))
		add(fmt.Sprintf("dist-close-subscribe-b%d", buf), []string{"D03"}, 4, 12, vs.Delay, "Subscribe while the distributor is being closed; the channel is closed after both",
			dist(1, "12", func(d *dsim) {
				s0 := d.sub("s0", 1)
				s0.subscribe()
				s0.receive()
				s1 := d.sub("s1", buf)
				done := make(chan struct{})
				vs.GoEnv("producer", d.produce(1, 2))
				vs.GoEnv("subscriber", func() {
					s1.subscribe()
					vs.Close((chan<- struct{})(done), "subscribed")
				})
				d.closeIt("c")
				vs.Recv((<-chan struct{})(done), "wait subscribed")
				vs.Close((chan<- *server.Config)(s1.ch), "close after Close")
			}, func(d *dsim, x *vs.Exec) string {
				if v := d.end(x); v != "" {
					return v
				}
				return noLeftovers(x)
			}))
	}
	add("dist-close-receiving", []string{"D03"}, 4, 12, vs.Delay, "Close while a subscriber keeps receiving: nothing arrives after it has returned",
		dist(1, "12", func(d *dsim) {
			s1 := d.sub("s1", 0)
			s1.receive()
			s1.subscribe()
			vs.GoEnv("producer", d.produce(1, 2))
			d.closeIt("c")
		}, func(d *dsim, x *vs.Exec) string {
			if v := d.end(x); v != "" {
				return v
			}
			return noLeftovers(x)
		}))
}

// filters tries every combination of filters of several subscribers.
func filters() *vs.Scenario {
	all := []filter{
		{"listen", func(o, n *server.Config) bool { return o == nil || o.Listen != n.Listen }},
		{"url", func(o, n *server.Config) bool { return o == nil || o.DatabaseURL != n.DatabaseURL }},
		{"url-not-first", func(o, n *server.Config) bool { return o != nil && o.DatabaseURL != n.DatabaseURL }},
		{"back", func(o, n *server.Config) bool { return o != nil && o.Listen > n.Listen }},
		{"one", func(o, n *server.Config) bool { return strings.HasSuffix(n.Listen, "1") }},
	}
	var sets [][]filter
	sets = append(sets, nil)
	for i, f := range all {
		sets = append(sets, []filter{f})
		sets = append(sets, []filter{f, all[(i+1)%len(all)]})
	}
	var d *dsim
	return &vs.Scenario{
		Body: func() {
			vs.SetEnv(true)
			vs.Freeze(true)
			d = newDsim(0, "1111")
			for i := range d.cfgs[1:] {
				k := vs.Choose(4)
				d.cfgs[i+1] = &server.Config{Listen: fmt.Sprint("127.0.0.1:100", 1+k%2), DatabaseURL: fmt.Sprint("postgres://u@h/db", k/2)}
			}
			late := vs.Choose(3) // updates before the subscriptions
			for i := 0; i < 2; i++ {
				if i == 0 && late > 0 {
					// the distributor reads its source once there is a subscriber
					s := d.sub("first", 1)
					s.receive()
					s.subscribe()
					d.produce(1, late)()
					vs.WaitIdle()
					d.atLeast(late)
				}
				s := d.sub(fmt.Sprint("s", i+1), i, sets[vs.Choose(len(sets))]...)
				s.receive()
				s.subscribe()
			}
			d.produce(late+1, len(d.cfgs))()
			vs.WaitIdle()
		},
		End: func(x *vs.Exec) string { return d.end(x) },
	}
}
