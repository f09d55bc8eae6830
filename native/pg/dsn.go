package main

import (
	"fmt"
	"net/url"
	"os"
	"os/user"

	"github.com/hired/gevulot/pkg/pg"
	"github.com/hired/gevulot/zzverif/x"
)

const absent = "\x00absent"

// encode percent-encodes a component: what must be encoded, or everything.
func encode(s string, all bool) string {
	r := ""
	for i := 0; i < len(s); i++ {
		b := s[i]
		plain := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '-' || b == '_' || b == '.'
		if plain && !all {
			r += string(rune(b))
		} else {
			r += fmt.Sprintf("%%%02X", b)
		}
	}
	return r
}

// libpq's environment variables, and those that name a user, are no part of the URL.
var environ = map[string]string{
	"PGHOST": "env.host", "PGHOSTADDR": "192.0.2.1", "PGPORT": "7777", "PGUSER": "envuser", "PGPASSWORD": "envsecret", "PGDATABASE": "envdb",
	"PGSSLMODE": "require", "PGAPPNAME": "envapp", "PGCONNECT_TIMEOUT": "7", "PGOPTIONS": "-c x=y", "PGSERVICE": "envservice", "PGPASSFILE": "/nonexistent",
	"DATABASE_URL": "postgres://envuser@env.host:7777/envdb", "USER": "envuser", "USERNAME": "envuser", "LOGNAME": "envuser",
}

func init() {
	for k, v := range environ {
		os.Setenv(k, v)
	}
	x.Add(&x.Space{Name: "database-urls", Props: []string{"U01"}, What: "every combination of scheme, user, password, host, port, path, query parameters and percent-encoding from sets of special values, in an environment full of variables for libpq; the oracle is the choice itself",
		Body: func(c *x.C) {
			scheme := c.Pick("scheme", "postgres", "postgresql", "http", "", "postgresqls", "postgre", "mysql")
			all := c.Bool("encode everything")
			enc := func(s string) string { return encode(s, all) }
			u, expect := scheme+"://", map[string]string{"host": "localhost", "port": "5432"}
			if scheme == "" {
				u = "//"
			}
			osUser := absent
			if cur, err := user.Current(); err == nil {
				osUser = cur.Username
			}
			usr := c.Pick("user", absent, "", "bob", "a b", "ü@:/?#%&+", "x%41+")
			pass := absent
			bad := scheme != "postgres" && scheme != "postgresql"
			if bad && usr != absent && usr != "bob" {
				return
			}
			if usr != absent {
				pass = c.Pick("password", absent, "", "secret", "p@:/?#% &+=", "%2B%41")
				u += enc(usr)
				if pass != absent {
					u += ":" + enc(pass)
				}
				u += "@"
			}
			hosts := []string{"", "h", "[::1]", "db.example.com", "10.1.2.3", "[fe80::2]"}
			host := hosts[c.Choose(c.N(3, 6), "host")]
			u += host
			ports := []string{absent, "5433", "1", "65535"}
			port := ports[c.Choose(c.N(2, 4), "port")]
			if port != absent {
				u += ":" + port
			}
			db := c.Pick("path", absent, "", "mydb", "/mydb", "a b", "a/b", "ü%?#&+", "a%41b", "postgres", "/")
			if db != absent {
				u += "/" + enc(db)
			}
			// query: up to two parameters
			over := map[string]string{}
			n := c.Choose(3, "parameters")
			if n == 2 && (bad || !c.Thorough() && (all || pass != absent)) {
				return
			}
			for i := 0; i < n; i++ {
				k := c.Pick("parameter", "sslmode", "user", "password", "host", "port", "database", "application_name")
				if _, ok := over[k]; ok {
					return
				}
				v := c.Pick("value", "val", "a b&=+%/ü", "%41%2Bx", "")
				if k == "port" && v != "val" || v == "" && k != "sslmode" && k != "application_name" && k != "password" {
					return
				}
				over[k] = v
				u += []string{"?", "&"}[i] + k + "=" + enc(v)
			}
			c.Note("%s", u)

			got, err := pg.ParseDatabaseURI(u)
			if bad {
				if err == nil {
					c.Failf("%q was accepted: %v", u, got)
				}
				return
			}
			if err != nil {
				c.Failf("%q was rejected: %v", u, err)
			}
			if osUser != absent {
				expect["user"] = osUser
			}
			if usr != absent && usr != "" {
				expect["user"] = usr
			}
			if pass != absent {
				expect["password"] = pass
			}
			switch {
			case host != "" && host[0] == '[':
				expect["host"] = host[1 : len(host)-1]
			case host != "":
				expect["host"] = host
			}
			if port != absent {
				expect["port"] = port
			}
			for k, v := range over {
				expect[k] = v
			}
			switch {
			case over["database"] != "":
			case db != absent && db != "":
				expect["database"] = db
			default:
				if v, ok := expect["user"]; ok {
					expect["database"] = v
				}
			}
			compare := func(got map[string]string) {
				for k, v := range expect {
					if w, ok := got[k]; (!ok || w != v) && !(k == "password" && v == "") {
						c.Failf("%q: %s is %q instead of %q", u, k, w, v)
					}
				}
				for k, v := range got {
					if _, ok := expect[k]; !ok {
						c.Failf("%q: unexpected parameter %s=%q", u, k, v)
					}
				}
			}
			compare(got)
			for k := range got {
				got[k] = "changed"
			}
			got["extra"] = "1"
			again, err := pg.ParseDatabaseURI(u)
			if err != nil {
				c.Failf("%q was rejected the second time: %v", u, err)
			}
			compare(again)
			c.Step(2)
		}, Depth: 4})
	x.Add(&x.Space{Name: "database-urls-parameters", Props: []string{"U01"}, What: "every pair of 60 query parameters (all names that libpq knows, in upper case, unknown and odd ones) and every one of 16 host names, with and without user and path: each parameter is passed through under its own name, each host as it is written",
		Body: func(c *x.C) {
			names := []string{"host", "hostaddr", "port", "database", "dbname", "user", "password", "passfile", "channel_binding", "connect_timeout", "client_encoding", "options", "application_name",
				"fallback_application_name", "keepalives", "keepalives_idle", "keepalives_interval", "keepalives_count", "tcp_user_timeout", "replication", "gssencmode", "sslmode", "requiressl",
				"sslcompression", "sslcert", "sslkey", "sslpassword", "sslrootcert", "sslcrl", "sslsni", "requirepeer", "krbsrvname", "gsslib", "service", "target_session_attrs", "load_balance_hosts",
				"search_path", "timezone", "TimeZone", "DateStyle", "extra_float_digits", "binary_parameters", "disable_prepared_binary_result", "server", "username", "pass", "db", "schema", "pool",
				"HOST", "Port", "USER", "Database", "DBNAME", "a.b", "x-y", "ü", "0", "a b", "user "}
			expect := map[string]string{"host": "localhost", "port": "5432"}
			if cur, err := user.Current(); err == nil {
				expect["user"] = cur.Username
			}
			u := "postgresql://"
			if c.Bool("user") {
				u += "Bob@"
				expect["user"] = "Bob"
			}
			hosts := []string{"", "DB.Example.COM", "a_b", "h.", "xn--bcher-kva.example", "bücher", "0", "127.1", "db-1", "-", "[::1]", "[FE80::A]", "[fe80::1%25eth0]", "[::ffff:1.2.3.4]", "localhost", "prod,standby"}
			plain := []string{"localhost", "DB.Example.COM", "a_b", "h.", "xn--bcher-kva.example", "bücher", "0", "127.1", "db-1", "-", "::1", "FE80::A", "fe80::1%eth0", "::ffff:1.2.3.4", "localhost", "prod,standby"}
			path := c.Bool("path")
			n := c.Choose(3, "parameters")
			if n < 2 {
				k := c.Choose(len(hosts), "host")
				u, expect["host"] = u+hosts[k], plain[k]
			}
			if path {
				u += "/Shop"
			}
			over := map[string]string{}
			for i := 0; i < n; i++ {
				k := names[c.Choose(len(names), "parameter")]
				if _, ok := over[k]; ok {
					return
				}
				over[k] = fmt.Sprintf("V%d x", i)
				u += []string{"?", "&"}[i] + encode(k, false) + "=" + encode(over[k], false)
			}
			for k, v := range over {
				expect[k] = v
			}
			if _, ok := over["database"]; ok {
			} else if path {
				expect["database"] = "Shop"
			} else if v, ok := expect["user"]; ok {
				expect["database"] = v
			}
			c.Note("%s", u)
			got, err := pg.ParseDatabaseURI(u)
			if err != nil {
				c.Failf("%q was rejected: %v", u, err)
			}
			for k, v := range expect {
				if w, ok := got[k]; !ok || w != v {
					c.Failf("%q: %s is %q instead of %q", u, k, w, v)
				}
			}
			for k, v := range got {
				if _, ok := expect[k]; !ok {
					c.Failf("%q: unexpected parameter %s=%q", u, k, v)
				}
			}
			c.Step(1)
		}, Depth: 3})
	x.Add(&x.Space{Name: "database-urls-invalid", Props: []string{"U01"}, What: "database URLs with one invalid component",
		Body: func(c *x.C) {
			u := c.Pick("scheme", "postgres", "postgresql") + "://"
			u += c.Pick("user", "", "bob@", "bob:pw@")
			bad := c.Choose(6, "invalid component")
			switch bad {
			case 0:
				u += c.Pick("host", "h:port", "[::1", "h:12x", "h:5432:1", "h h", "h\x7f", "h%zz")
			default:
				u += "h"
			}
			switch bad {
			case 1:
				u += c.Pick("path", "/%zz", "/d%", "/a%2", "/\x01")
			default:
				u += c.Pick("path", "", "/db")
			}
			switch bad {
			case 2:
				u += c.Pick("query", "?a=%zz", "?%=1", "?sslmode=disable&host=%x", "?host=%2")
			case 3:
				u = "postgres" + c.Pick("separator", "//h/db", "/h/db", "h/db", " ://h/db", "%://h/db")
			case 4:
				u = c.Pick("text", "", ":", "%", "/", "h", "host=localhost dbname=x", "://h/db", "1postgres://h/db", "\x00")
			case 5:
				u = "postgres://" + c.Pick("user", "us er@h", "us%zz@h", "u:p%z@h", "u\x00@h")
			}
			c.Note("%q", u)
			if _, err := url.Parse(u); err == nil && bad != 2 && bad < 3 {
				return // the component is fine after all
			}
			if got, err := pg.ParseDatabaseURI(u); err == nil {
				if p, e := url.Parse(u); bad == 5 && e == nil && p.Host != "" {
					return
				}
				c.Failf("%q was accepted: %v", u, got)
			}
		}})
}
