// Command pgmeta explores pkg/pgmeta against a PostgreSQL server that evaluates its queries on enumerated catalogs and
// fails at every possible point.
package main

import (
	"fmt"
	"net"
	"net/url"
	"reflect"
	"strings"

	"github.com/hired/gevulot/pkg/pgmeta"
	"github.com/hired/gevulot/zzverif/x"
	"github.com/lib/pq/oid"
)

func main() { x.Main() }

var srv *fake

func setup() { srv = newFake() }

func dsn(user, pass, db, extra string) string {
	u := url.URL{Scheme: "postgres", User: url.UserPassword(user, pass), Host: fmt.Sprintf("127.0.0.1:%d", srv.port), Path: "/" + db, RawQuery: extra}
	return u.String()
}

const plain = "sslmode=disable"

// schemas are names of schemas, with whether they are a user's.
var schemas = []struct {
	name string
	user bool
}{
	{"public", true}, {"app", true}, {"pg_catalog", false}, {"information_schema", false}, {"pg_toast", false}, {"pg_temp_3", false}, {"pg_toast_temp_3", false},
	{"pgbench", true}, {"pg", true}, {"p", true}, {"PG_upper", true}, {"Information_Schema", true}, {"my pg_x", true}, {"xpg_y", true},
	{"information_schema2", true}, {"information", true}, {"pg-dash", true}, {"pgx_1", true}, {"a\"b'c", true}, {"ünï", true},
	{" lead", true}, {"trail ", true}, {"a.b", true}, {"NULL", true},
}

const kinds = "rvmiStcfpI"

func covered(schema int, kind byte) bool {
	return schemas[schema].user && strings.IndexByte("rvm", kind) >= 0
}

// nsOid is the object id of a schema.
func nsOid(i int) int64 {
	switch schemas[i].name {
	case "public":
		return 2200
	case "pg_catalog":
		return 11
	case "pg_toast":
		return 99
	case "information_schema":
		return 13000
	}
	return int64(16400 + i)
}

func newCatalog() *catalog {
	c := &catalog{}
	for i, s := range schemas {
		c.namespaces = append(c.namespaces, namespace{oid: nsOid(i), name: s.name})
	}
	return c
}

func (c *catalog) add(o int64, schema int, kind byte, name string) {
	c.relations = append(c.relations, relation{oid: o, name: name, ns: nsOid(schema), kind: string(kind), traits: traits{populated: true, pages: 1, tuples: 7, atts: 2, typ: o + 2, file: o}})
}

func (c *catalog) want() map[oid.Oid]pgmeta.Table {
	m := map[oid.Oid]pgmeta.Table{}
	at := map[int64]int{}
	for i := range schemas {
		at[nsOid(i)] = i
	}
	for _, r := range c.relations {
		if s := at[r.ns]; covered(s, r.kind[0]) {
			m[oid.Oid(r.oid)] = pgmeta.Table{Schema: schemas[s].name, Name: r.name}
		}
	}
	return m
}

func (s *script) check(c *x.C) {
	if s.undec != "" {
		c.Undecided("%s", s.undec)
	}
}

func closed(c *x.C, s *script, when string) {
	ok := s.settled()
	s.check(c)
	if !ok {
		c.Failf("%s a connection to the server stays open", when)
	}
}

// mapping asks for the table metadata of a catalog.
func mapping(c *x.C, cat *catalog) {
	s := &script{cat: cat}
	srv.begin(s)
	in, err := pgmeta.Inspect(dsn("u", "", "shop", plain))
	s.check(c)
	if err != nil {
		c.Failf("Inspect failed: %v", err)
	}
	got, err := in.OIDTableMapping()
	s.check(c)
	if err != nil {
		in.Close()
		c.Failf("OIDTableMapping failed: %v", err)
	}
	if want := cat.want(); !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
		in.Close()
		c.Failf("the mapping is %+v instead of %+v (relations: %s)", got, want, cat)
	}
	if err := in.Close(); err != nil {
		c.Failf("Close failed: %v", err)
	}
	closed(c, s, "after Close")
}

func (c *catalog) String() string {
	var r []string
	for _, x := range c.relations {
		r = append(r, fmt.Sprintf("%d=%s.%s(%s)", x.oid, c.nsName(x.ns), x.name, x.kind))
	}
	return strings.Join(r, " ")
}

// answer is a call of the inspector.
type answer struct {
	what string
	val  interface{}
	err  error
}

func faultCatalog() *catalog {
	cat := newCatalog()
	cat.add(16401, 0, 'r', "companies")
	cat.add(16402, 1, 'v', "users")
	cat.add(16403, 0, 'm', "sums")
	return cat
}

type runResult struct {
	s       *script
	err     error
	answers []answer
}

func perform(s *script, d string, calls []int) *runResult {
	srv.begin(s)
	r := &runResult{s: s}
	in, err := pgmeta.Inspect(d)
	if r.err = err; err != nil {
		return r
	}
	for _, k := range calls {
		switch k {
		case 0:
			v, err := in.DatabaseName()
			r.answers = append(r.answers, answer{"DatabaseName", v, err})
		case 1:
			v, err := in.OIDTableMapping()
			r.answers = append(r.answers, answer{"OIDTableMapping", v, err})
		}
	}
	in.Close()
	return r
}

var dry = map[string]shape{}

func init() {
	x.Add(&x.Space{Name: "meta-relations", Props: []string{"M02"}, Setup: setup, Depth: 1,
		What: "every single relation: schema out of 24, kind out of 10, name and object id out of sets of special values",
		Body: func(c *x.C) {
			cat := newCatalog()
			s, k := c.Choose(len(schemas), "schema"), kinds[c.Choose(len(kinds), "kind")]
			n := c.Pick("name", "users", "Mixed Case", "quo\"te'd", "pg_mine", "ünï", "back\\slash", strings.Repeat("n", 63), "%", " lead", "trail ", "\ttab\n", "UPPER", "a.b", "\"q\"", "NULL", "{}", "\\N", "日本")
			o := c.PickInt("oid", 16384, 65536, 2147483647, 2147483648, 4294967295)
			cat.add(int64(o), s, k, n)
			c.Note("%s", cat)
			mapping(c, cat)
		}})
	x.Add(&x.Space{Name: "meta-pairs", Props: []string{"M02"}, Setup: setup, Depth: 1,
		What: "every pair of relations: schemas out of 24, kinds out of 10, same or different names",
		Body: func(c *x.C) {
			cat := newCatalog()
			a, b := c.Choose(len(schemas), "schema"), c.Choose(len(schemas), "schema")
			ks := kinds
			if !c.Thorough() {
				ks = "rvmip"
			}
			cat.add(16385, a, ks[c.Choose(len(ks), "kind")], "users")
			cat.add(16384, b, ks[c.Choose(len(ks), "kind")], c.Pick("name", "users", "other"))
			c.Note("%s", cat)
			mapping(c, cat)
		}})
	x.Add(&x.Space{Name: "meta-traits", Props: []string{"M02"}, Setup: setup, Depth: 2,
		What: "a table, view or materialised view in one of 3 user schemas, in every combination of: unlogged, owned by another, no privilege on it, none on its schema, partition, not populated, empty or never analysed, with indexes, rules and triggers, with options and an access list; an inaccessible system relation beside it",
		Body: func(c *x.C) {
			cat := newCatalog()
			s, k := []int{0, 1, 7}[c.Choose(3, "schema")], "rvm"[c.Choose(3, "kind")]
			cat.add(16390, s, k, "users")
			r, ns := &cat.relations[0], &cat.namespaces[s]
			if k == 'r' && c.Bool("unlogged") {
				r.persistence = "u"
			}
			if c.Bool("another's") {
				r.owner = 16385
			}
			r.barred = c.Bool("no privilege")
			ns.barred = c.Bool("no privilege on the schema")
			if ns.barred {
				ns.owner, ns.acl = 16385, "{u=UC/u}"
			}
			r.partition = k == 'r' && c.Bool("partition")
			r.populated = k != 'm' || c.Bool("populated")
			switch c.Choose(3, "size") {
			case 0:
				r.pages, r.tuples, r.atts = 0, 0, 0
			case 1:
				r.pages, r.tuples = 0, -1
			}
			if k == 'v' {
				r.file, r.pages = 0, 0
			} else {
				r.am = 2
			}
			r.flags = c.Bool("flags")
			if c.Bool("options") {
				r.acl, r.options, r.space = "{u=arwdDxt/u}", "{fillfactor=70}", 1663
			}
			cat.add(16391, 2, 'r', "pg_thing")
			cat.relations[1].barred = true
			c.Note("%s %+v", cat, *r)
			mapping(c, cat)
		}})
	x.Add(&x.Space{Name: "meta-many", Props: []string{"M02", "M01"}, Setup: setup, Depth: 1,
		What: "0 to 40, 100, 1000, 20000 relations of all kinds in all schemas, 70000 tables in two",
		Body: func(c *x.C) {
			cat := newCatalog()
			n := c.Choose(45, "relations")
			if n == 44 {
				for i := 0; i < 70000; i++ {
					cat.add(int64(20000+i), i%2, 'r', fmt.Sprintf("t%d", i/2))
				}
				mapping(c, cat)
				return
			}
			if n > 40 {
				n = []int{100, 1000, 20000}[n-41]
			}
			shift := c.Choose(5, "shift")
			for i := 0; i < n; i++ {
				cat.add(int64(20000+i), (i*7+shift)%len(schemas), kinds[(i/3)%len(kinds)], fmt.Sprintf("t%d", i%(n/2+1)))
			}
			mapping(c, cat)
		}})
	x.Add(&x.Space{Name: "meta-database", Props: []string{"M02"}, Setup: setup, Depth: 1,
		What: "the database name, out of a set of special names, named in the DSN or by the user's name",
		Body: func(c *x.C) {
			name := c.Pick("database", "shop", "Shop", "a b", "ünï", "quo\"te'd", "postgres", "template1", "per%cent", "back\\slash", "u", "slash/slash", strings.Repeat("d", 63))
			s := &script{cat: faultCatalog()}
			srv.begin(s)
			d := dsn("u", "", name, plain)
			if c.Bool("by the user's name") {
				d = dsn(name, "", "", plain)
			}
			in, err := pgmeta.Inspect(d)
			s.check(c)
			if err != nil {
				c.Failf("Inspect(%s) failed: %v", d, err)
			}
			for i, n := 0, 1+c.Choose(3, "times"); i < n; i++ {
				got, err := in.DatabaseName()
				s.check(c)
				if err != nil || got != name {
					in.Close()
					c.Failf("the database is called %q, but DatabaseName returned %q, %v", name, got, err)
				}
			}
			in.Close()
			closed(c, s, "after Close")
		}})
	x.Add(&x.Space{Name: "meta-faults", Props: []string{"M01"}, Setup: setup, Depth: 3, Hang: 60,
		What: "every sequence of up to 2 (3) calls times a failure at every point of the server's output: the stream ends or is reset after every byte, or an error, a fatal error, a notice or a parameter change comes before every message; on the first connection or on all of them",
		Body: func(c *x.C) {
			var calls []int
			for i, n := 0, c.Choose(c.N(2, 3)+1, "calls"); i < n; i++ {
				calls = append(calls, c.Choose(2, "call"))
			}
			auth := c.Pick("authentication", "", "md5", "password")
			d := dsn("u", "s3cret", "shop", plain)
			key := fmt.Sprint(calls, auth)
			sh, ok := dry[key]
			if !ok {
				r := perform(&script{cat: faultCatalog(), auth: auth}, d, calls)
				r.s.settled()
				r.s.check(c)
				if r.err != nil {
					c.Failf("Inspect failed without any fault: %v", r.err)
				}
				sh = r.s.shapes[0]
				dry[key] = sh
			}
			f := fault{kind: c.Pick("fault", "", "cut", "reset", "error", "fatal", "notice", "parameter")}
			all := false
			switch f.kind {
			case "":
			case "cut", "reset":
				f.at = c.Choose(sh.ends[len(sh.ends)-1]+1, "byte")
				all = c.Bool("on all connections")
			case "notice":
				f.at = c.Choose(len(sh.ends)+1, "message")
			case "parameter": // not before the authentication is over
				first := 1
				if auth != "" {
					first = 2
				}
				f.at = first + c.Choose(len(sh.ends)+1-first, "message")
			default:
				f.at = c.Choose(len(sh.ends)+1, "message")
				all = c.Bool("on all connections")
			}
			split := 0
			if c.Thorough() {
				split = c.Choose(2, "one byte at a time")
			}
			c.Note("calls %v, authentication %q, fault %+v, on all connections %v", calls, auth, f, all)
			cat := faultCatalog()
			r := perform(&script{cat: cat, auth: auth, fault: f, all: all, split: split}, d, calls)
			closed(c, r.s, "when everything is over")
			harmless := f.kind == "" || f.kind == "notice" || f.kind == "parameter" || !r.s.hit
			if r.err != nil && harmless {
				c.Failf("Inspect failed: %v", r.err)
			}
			inStart := f.at < sh.start
			if f.kind == "cut" || f.kind == "reset" {
				inStart = f.at < sh.ends[sh.start-1]
			}
			if r.err == nil && !harmless && inStart && all {
				c.Failf("Inspect succeeded although no connection could be established (fault %+v)", f)
			}
			for i, a := range r.answers {
				c.Step(1)
				if a.err != nil {
					if harmless {
						c.Failf("call %d, %s, failed: %v", i+1, a.what, a.err)
					}
					continue
				}
				var want interface{} = "shop"
				if a.what == "OIDTableMapping" {
					want = cat.want()
				}
				if !reflect.DeepEqual(a.val, want) {
					c.Failf("call %d, %s, returned %+v as success, the answer is %+v (fault %+v, on all connections %v)", i+1, a.what, a.val, want, f, all)
				}
			}
		}})
	x.Add(&x.Space{Name: "meta-odd-answers", Props: []string{"M01"}, Setup: setup, Depth: 1, Hang: 60,
		What: "answers without the row that is asked for, with a NULL in every column of every row, or with an object id that is none: never presented as a complete answer",
		Body: func(c *x.C) {
			call := c.Choose(2, "call")
			f := fault{kind: c.Pick("answer", "none", "null", "value")}
			switch {
			case f.kind == "none":
				if call == 1 {
					return // an empty database
				}
			case f.kind == "null":
				f.at, f.col = c.Choose(4, "row"), c.Choose(4, "column")
			default:
				f.at = c.Choose(4, "row")
				f.text = c.Pick("object id", "", "x", "-1", "4294967296", "12a", " 1 2", "1.5", "99999999999999999999")
			}
			c.Note("call %d, %+v", call, f)
			cat := faultCatalog()
			r := perform(&script{cat: cat, fault: f, all: true}, dsn("u", "s3cret", "shop", plain), []int{call})
			r.s.check(c)
			closed(c, r.s, "when everything is over")
			if r.err != nil || !r.s.hit {
				return
			}
			if a := r.answers[0]; a.err == nil && (call == 0 && a.val != "shop" || call == 1 && !reflect.DeepEqual(a.val, cat.want())) {
				c.Failf("%s returned %#v as success although the server's answer was unusable (%+v)", a.what, a.val, f)
			}
		}})
	x.Add(&x.Space{Name: "meta-refused", Props: []string{"M01"}, Setup: setup, Depth: 1, Hang: 60,
		What: "servers that cannot be reached, refuse, demand what the client does not have, are none, and malformed DSNs",
		Body: func(c *x.C) {
			cat := faultCatalog()
			s := &script{cat: cat, auth: ""}
			d := dsn("u", "s3cret", "shop", plain)
			what := c.Pick("server", "closed port", "too many clients", "wrong password", "wrong md5 password", "unknown authentication", "no encryption", "raw", "malformed DSN")
			switch what {
			case "closed port":
				l, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					panic(err)
				}
				a := l.Addr().String()
				l.Close()
				d = "postgres://u@" + a + "/shop?" + plain
			case "too many clients":
				s.auth = "refused"
			case "wrong password", "wrong md5 password":
				s.auth = map[string]string{"wrong password": "password", "wrong md5 password": "md5"}[what]
				d = dsn("u", c.Pick("password", "", "wrong", "s3cre", "s3cret "), "shop", plain)
			case "unknown authentication":
				s.auth = "unknown"
			case "no encryption":
				d = dsn("u", "s3cret", "shop", c.Pick("mode", "", "sslmode=require", "sslmode=verify-full"))
			case "raw":
				s.isRaw = true
				s.raw = []byte(c.Pick("reply", "", "N", "E", "HTTP/1.1 400 Bad Request\r\n\r\n", "220 smtp ready\r\n", "\x15\x03\x01\x00\x02\x02\x28", "R\x00\x00\x00\x08\x00\x00\x00\x00", "Z\x00\x00\x00\x05I",
					"E\x00\x00\x00\x05\x00", "E\x00\x00\x00\x10SFATAL\x00Mno\x00\x00", "X\x00\x00\x00\x04", "R\x00\x00\x00\x08\x00\x00\x00\x00X\x00\x00\x00\x04", "\x00\x00\x00\x00\x00\x00\x00\x00", "R\x00\x00\x00\x03", "R\x00\x00\x00\x04", "S\x00\x00\x00\x06x\x00"))
				d = dsn("u", "s3cret", "shop", c.Pick("mode", plain, "sslmode=require"))
			case "malformed DSN":
				d = c.Pick("DSN", "postgres://%zz/", "postgres://u@h:1/db?sslmode=nonsense", "host='unterminated", "nonsense", "postgres://u@127.0.0.1:notaport/db?"+plain, "host=127.0.0.1 port=99999999 sslmode=disable")
			}
			c.Note("%s %q %s", what, s.raw, d)
			srv.begin(s)
			in, err := pgmeta.Inspect(d)
			if err == nil {
				in.Close()
				c.Failf("Inspect(%q) succeeded: %s %q", d, what, s.raw)
			}
			if in != nil {
				c.Failf("Inspect(%q) returned an inspector with the error", d)
			}
			closed(c, s, "after Inspect has failed")
		}})
}
