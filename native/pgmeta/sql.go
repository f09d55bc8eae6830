package main

// An evaluator for queries on the system catalog, with PostgreSQL's semantics. What it does not know it reports as
// unsupported, in which case nothing is concluded.

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// unsupported is the panic for what the evaluator does not know; failing is PostgreSQL's own error.
type unsupported string
type failing string

// value is nil (NULL), string, int64, bool or []value (array).
type value interface{}

// ---- tokens

type token struct {
	kind byte // 'i' identifier, 'q' quoted identifier, 's' string, 'n' number, 'o' operator, 'p' parameter, 0 end
	s    string
}

var operators = []string{"::", "!~~*", "!~~", "!~*", "~~*", "!~", "~~", "~*", "<>", "!=", "<=", ">=", "||", "(", ")", ",", ".", ";", "=", "<", ">", "+", "-", "*", "/", "%", "~", "[", "]", ":"}

func tokens(q string) (r []token) {
	isID := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	isNum := func(c byte) bool { return c >= '0' && c <= '9' }
next:
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			k := strings.Index(q[i+2:], "*/")
			if k < 0 {
				panic(failing("unterminated comment"))
			}
			i += k + 4
		case (c == 'E' || c == 'e') && i+1 < len(q) && q[i+1] == '\'':
			var b strings.Builder
			for i += 2; ; i++ {
				if i >= len(q) {
					panic(failing("unterminated string"))
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						i++
					} else {
						break
					}
				}
				if q[i] == '\\' && i+1 < len(q) {
					i++
					switch q[i] {
					case 'n':
						b.WriteByte('\n')
						continue
					case 't':
						b.WriteByte('\t')
						continue
					case '\\', '\'', '"':
					default:
						panic(unsupported("escape \\" + string(q[i])))
					}
				}
				b.WriteByte(q[i])
			}
			i++
			r = append(r, token{'s', b.String()})
		case c == '\'':
			var b strings.Builder
			for i++; ; i++ {
				if i >= len(q) {
					panic(failing("unterminated string"))
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						i++
					} else {
						break
					}
				}
				b.WriteByte(q[i])
			}
			i++
			r = append(r, token{'s', b.String()})
		case c == '"':
			var b strings.Builder
			for i++; ; i++ {
				if i >= len(q) {
					panic(failing("unterminated identifier"))
				}
				if q[i] == '"' {
					if i+1 < len(q) && q[i+1] == '"' {
						i++
					} else {
						break
					}
				}
				b.WriteByte(q[i])
			}
			i++
			r = append(r, token{'q', b.String()})
		case c == '$' && i+1 < len(q) && isNum(q[i+1]):
			k := i + 1
			for k < len(q) && isNum(q[k]) {
				k++
			}
			r = append(r, token{'p', q[i+1 : k]})
			i = k
		case c == '$':
			k := strings.IndexByte(q[i+1:], '$')
			if k < 0 {
				panic(failing("syntax error at $"))
			}
			tag := q[i : i+k+2]
			e := strings.Index(q[i+len(tag):], tag)
			if e < 0 {
				panic(failing("unterminated string"))
			}
			r = append(r, token{'s', q[i+len(tag) : i+len(tag)+e]})
			i += e + 2*len(tag)
		case isID(c):
			k := i
			for k < len(q) && (isID(q[k]) || isNum(q[k]) || q[k] == '$') {
				k++
			}
			r = append(r, token{'i', strings.ToLower(q[i:k])})
			i = k
		case isNum(c):
			k := i
			for k < len(q) && isNum(q[k]) {
				k++
			}
			r = append(r, token{'n', q[i:k]})
			i = k
		default:
			for _, o := range operators {
				if strings.HasPrefix(q[i:], o) {
					r = append(r, token{'o', o})
					i += len(o)
					continue next
				}
			}
			panic(unsupported("character " + string(c)))
		}
	}
	return append(r, token{})
}

// ---- expressions

// scope are the rows in view: those of the query and of the queries around it.
type scope struct {
	rows   []tuple
	outer  *scope
	db     *catalog
	params []value
}

// tuple is a row of a table under its name in the query.
type tuple struct {
	alias string
	t     *table
	row   []value
}

type table struct {
	cols  []string
	types []int
	rows  [][]value
}

func (t *table) col(n string) int {
	for i, c := range t.cols {
		if c == n {
			return i
		}
	}
	return -1
}

const (
	tBool, tName, tInt8, tInt4, tText, tOid, tChar = 16, 19, 20, 23, 25, 26, 18
)

// expr is an expression with the type of its value.
type expr struct {
	eval func(s *scope) value
	typ  func(s *scope) int
	name string // its name as a column
	cols func(s *scope) []string
}

func konst(v value, t int) expr {
	return expr{eval: func(*scope) value { return v }, typ: func(*scope) int { return t }, name: "?column?"}
}

type parser struct {
	t    []token
	i    int
	ctes map[string]*query
}

func (p *parser) peek() token { return p.t[p.i] }

func (p *parser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.t) {
			return false
		}
		t := p.t[p.i+k]
		if t.s != w || t.kind != 'i' && t.kind != 'o' {
			return false
		}
	}
	return true
}

func (p *parser) take(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}

// syntaxError ends the parsing. A word in an unexpected place may well be SQL that the parser does not know.
func (p *parser) syntaxError(more string) {
	t := p.peek()
	if t.kind == 'i' {
		panic(unsupported("grammar at " + t.s + more))
	}
	panic(failing(fmt.Sprintf("syntax error at or near %q%s", t.s, more)))
}

func (p *parser) want(w string) {
	if !p.take(w) {
		p.syntaxError(", " + w + " expected")
	}
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where and or not in like ilike is null order by limit offset join inner left right full outer cross on using union all any some distinct group having as case when then else end exists between array cast collate similar with except intersect natural true false asc desc fetch for") {
		reserved[w] = true
	}
}

func (p *parser) ident() string {
	t := p.peek()
	if t.kind != 'q' && (t.kind != 'i' || reserved[t.s]) {
		p.syntaxError("")
	}
	p.i++
	return t.s
}

func truth(v value) (b, null bool) {
	switch v := v.(type) {
	case nil:
		return false, true
	case bool:
		return v, false
	case string:
		switch strings.ToLower(v) {
		case "t", "true", "on", "1", "yes", "y":
			return true, false
		case "f", "false", "off", "0", "no", "n":
			return false, false
		}
	}
	panic(failing("not a boolean"))
}

func tri(b, null bool) value {
	if null {
		return nil
	}
	return b
}

func boolean(f func(s *scope) value) expr {
	return expr{eval: f, typ: func(*scope) int { return tBool }, name: "?column?"}
}

func (p *parser) expr() expr {
	l := p.conj()
	for p.take("or") {
		a, b := l, p.conj()
		l = boolean(func(s *scope) value {
			x, xn := truth(a.eval(s))
			if x && !xn {
				return true
			}
			y, yn := truth(b.eval(s))
			if y && !yn {
				return true
			}
			return tri(false, xn || yn)
		})
	}
	return l
}

func (p *parser) conj() expr {
	l := p.neg()
	for p.take("and") {
		a, b := l, p.neg()
		l = boolean(func(s *scope) value {
			x, xn := truth(a.eval(s))
			if !x && !xn {
				return false
			}
			y, yn := truth(b.eval(s))
			if !y && !yn {
				return false
			}
			return tri(true, xn || yn)
		})
	}
	return l
}

func not(v value) value {
	b, n := truth(v)
	return tri(!b, n)
}

func (p *parser) neg() expr {
	if p.take("not") {
		e := p.neg()
		return boolean(func(s *scope) value { return not(e.eval(s)) })
	}
	return p.cmp()
}

// compare orders two values that are not NULL.
func compare(a, b value) int {
	num := func(v value) (int64, bool) {
		switch v := v.(type) {
		case int64:
			return v, true
		case string:
			n, err := strconv.ParseInt(strings.TrimSpace(v), 10, 64)
			if err != nil {
				panic(failing("invalid input syntax for integer: " + v))
			}
			return n, true
		}
		return 0, false
	}
	switch x := a.(type) {
	case int64:
		if y, ok := num(b); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	case string:
		switch y := b.(type) {
		case int64:
			return -compare(b, a)
		case string:
			return strings.Compare(x, y)
		case bool:
			return -compare(b, a)
		}
	case bool:
		y, _ := truth(b)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	}
	panic(unsupported(fmt.Sprintf("comparison of %T and %T", a, b)))
}

// like is PostgreSQL's LIKE.
func like(s, pat string, esc rune, hasEsc bool) bool {
	sr, pr := []rune(s), []rune(pat)
	var m func(i, k int) bool
	m = func(i, k int) bool {
		for k < len(pr) {
			switch {
			case hasEsc && pr[k] == esc:
				if k+1 >= len(pr) {
					panic(failing("LIKE pattern must not end with escape character"))
				}
				if i >= len(sr) || sr[i] != pr[k+1] {
					return false
				}
				i, k = i+1, k+2
			case pr[k] == '%':
				for j := i; j <= len(sr); j++ {
					if m(j, k+1) {
						return true
					}
				}
				return false
			case pr[k] == '_':
				if i >= len(sr) {
					return false
				}
				i, k = i+1, k+1
			default:
				if i >= len(sr) || sr[i] != pr[k] {
					return false
				}
				i, k = i+1, k+1
			}
		}
		return i == len(sr)
	}
	return m(0, 0)
}

func text(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case int64:
		return strconv.FormatInt(v, 10)
	case bool:
		if v {
			return "t"
		}
		return "f"
	}
	panic(unsupported(fmt.Sprintf("text of %T", v)))
}

func applyOp(op string, a, b value) value {
	if a == nil || b == nil {
		return nil
	}
	switch op {
	case "=":
		return compare(a, b) == 0
	case "<>", "!=":
		return compare(a, b) != 0
	case "<":
		return compare(a, b) < 0
	case ">":
		return compare(a, b) > 0
	case "<=":
		return compare(a, b) <= 0
	case ">=":
		return compare(a, b) >= 0
	case "~~":
		return like(text(a), text(b), '\\', true)
	case "!~~":
		return !like(text(a), text(b), '\\', true)
	case "~~*":
		return like(strings.ToLower(text(a)), strings.ToLower(text(b)), '\\', true)
	case "!~~*":
		return !like(strings.ToLower(text(a)), strings.ToLower(text(b)), '\\', true)
	case "~", "!~", "~*", "!~*":
		pat := text(b)
		if strings.HasSuffix(op, "*") {
			pat = "(?i)" + pat
		}
		re, err := regexp.Compile("(?s)" + pat)
		if err != nil {
			panic(unsupported("regular expression " + pat))
		}
		return re.MatchString(text(a)) != strings.HasPrefix(op, "!")
	}
	panic(unsupported("operator " + op))
}

func isCmpOp(s string) bool {
	switch s {
	case "=", "<>", "!=", "<", ">", "<=", ">=", "~~", "!~~", "~~*", "!~~*", "~", "!~", "~*", "!~*":
		return true
	}
	return false
}

func (p *parser) cmp() expr {
	l := p.add()
	for {
		t := p.peek()
		switch {
		case t.kind == 'o' && isCmpOp(t.s):
			p.i++
			a, op := l, t.s
			if p.is("any") || p.is("some") || p.is("all") {
				l = p.quantified(op, a)
				continue
			}
			b := p.add()
			l = boolean(func(s *scope) value { return applyOp(op, a.eval(s), b.eval(s)) })
		case p.take("is"):
			neg := p.take("not")
			a := l
			switch {
			case p.take("null"):
				l = boolean(func(s *scope) value { return (a.eval(s) == nil) != neg })
			case p.take("true"):
				l = boolean(func(s *scope) value { b, n := truth(a.eval(s)); return (b && !n) != neg })
			case p.take("false"):
				l = boolean(func(s *scope) value { b, n := truth(a.eval(s)); return (!b && !n) != neg })
			case p.take("distinct", "from"):
				b := p.add()
				l = boolean(func(s *scope) value {
					x, y := a.eval(s), b.eval(s)
					if x == nil || y == nil {
						return (x == nil) != (y == nil) != neg
					}
					return (compare(x, y) != 0) != neg
				})
			default:
				panic(unsupported("IS " + p.peek().s))
			}
		case p.is("in"), p.is("not", "in"):
			neg := p.take("not")
			p.want("in")
			p.want("(")
			a := l
			if p.is("select") || p.is("with") || p.is("values") {
				q := p.query()
				p.want(")")
				l = boolean(func(s *scope) value {
					x, null := a.eval(s), false
					for _, r := range q.run(s).rows {
						if len(r) != 1 {
							panic(failing("subquery has too many columns"))
						}
						b, n := truth(applyOp("=", x, r[0]))
						if b && !n {
							return !neg
						}
						null = null || n
					}
					return tri(neg, null)
				})
				continue
			}
			var es []expr
			for {
				es = append(es, p.expr())
				if !p.take(",") {
					break
				}
			}
			p.want(")")
			l = boolean(func(s *scope) value {
				x, null := a.eval(s), false
				for _, e := range es {
					b, n := truth(applyOp("=", x, e.eval(s)))
					if b && !n {
						return !neg
					}
					null = null || n
				}
				return tri(neg, null)
			})
		case p.is("like"), p.is("not", "like"), p.is("ilike"), p.is("not", "ilike"):
			neg := p.take("not")
			fold := p.is("ilike")
			p.i++
			if p.is("any") || p.is("all") || p.is("some") {
				op := "~~"
				if neg {
					op = "!~~"
				}
				if fold {
					op += "*"
				}
				l = p.quantified(op, l)
				continue
			}
			a, b := l, p.add()
			esc := konst("\\", tText)
			if p.take("escape") {
				esc = p.add()
			}
			l = boolean(func(s *scope) value {
				x, y, e := a.eval(s), b.eval(s), esc.eval(s)
				if x == nil || y == nil || e == nil {
					return nil
				}
				xs, ys, er := text(x), text(y), []rune(text(e))
				if fold {
					xs, ys = strings.ToLower(xs), strings.ToLower(ys)
				}
				if len(er) > 1 {
					panic(failing("invalid escape string"))
				}
				if len(er) == 0 {
					return like(xs, ys, 0, false) != neg
				}
				return like(xs, ys, er[0], true) != neg
			})
		case p.is("between"), p.is("not", "between"):
			neg := p.take("not")
			p.i++
			a, lo := l, p.add()
			p.want("and")
			hi := p.add()
			l = boolean(func(s *scope) value {
				x, y, z := a.eval(s), lo.eval(s), hi.eval(s)
				if x == nil || y == nil || z == nil {
					return nil
				}
				return (compare(x, y) >= 0 && compare(x, z) <= 0) != neg
			})
		default:
			return l
		}
	}
}

// quantified parses ANY (...) or ALL (...) behind an operator.
func (p *parser) quantified(op string, a expr) expr {
	all := p.is("all")
	p.i++
	p.want("(")
	list := p.listOrSelect()
	p.want(")")
	return boolean(func(s *scope) value {
		x, null := a.eval(s), false
		vs := list(s)
		if vs == nil {
			return nil
		}
		for _, y := range *vs {
			b, n := truth(applyOp(op, x, y))
			if n {
				null = true
			} else if b != all {
				return !all
			}
		}
		return tri(all, null)
	})
}

// listOrSelect parses what ANY and ALL take.
func (p *parser) listOrSelect() func(s *scope) *[]value {
	if p.is("select") || p.is("with") {
		q := p.query()
		return func(s *scope) *[]value {
			r := []value{}
			for _, row := range q.run(s).rows {
				r = append(r, row[0])
			}
			return &r
		}
	}
	e := p.expr()
	return func(s *scope) *[]value {
		switch v := e.eval(s).(type) {
		case nil:
			return nil
		case []value:
			return &v
		case string:
			r := arrayLiteral(v)
			return &r
		}
		panic(failing("op ANY/ALL requires array on right side"))
	}
}

// arrayLiteral parses '{a,b}'.
func arrayLiteral(s string) []value {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		panic(failing("malformed array literal: " + s))
	}
	s = s[1 : len(s)-1]
	r := []value{}
	for s != "" {
		if s[0] == '"' {
			var b strings.Builder
			k := 1
			for ; k < len(s) && s[k] != '"'; k++ {
				if s[k] == '\\' && k+1 < len(s) {
					k++
				}
				b.WriteByte(s[k])
			}
			if k >= len(s) {
				panic(failing("malformed array literal"))
			}
			r = append(r, b.String())
			s = s[k+1:]
		} else {
			k := strings.IndexByte(s, ',')
			if k < 0 {
				k = len(s)
			}
			w := strings.TrimSpace(s[:k])
			if strings.EqualFold(w, "null") {
				r = append(r, nil)
			} else {
				r = append(r, w)
			}
			s = s[k:]
		}
		s = strings.TrimPrefix(s, ",")
	}
	return r
}

func (p *parser) add() expr {
	l := p.postfix()
	for {
		switch {
		case p.take("||"):
			a, b := l, p.postfix()
			l = expr{eval: func(s *scope) value {
				x, y := a.eval(s), b.eval(s)
				if x == nil || y == nil {
					return nil
				}
				return text(x) + text(y)
			}, typ: func(*scope) int { return tText }, name: "?column?"}
		case p.is("+") || p.is("-"):
			sub := p.is("-")
			p.i++
			a, b := l, p.postfix()
			l = expr{eval: func(s *scope) value {
				x, y := a.eval(s), b.eval(s)
				if x == nil || y == nil {
					return nil
				}
				i, iok := x.(int64)
				k, kok := y.(int64)
				if !iok || !kok {
					panic(unsupported("arithmetic"))
				}
				if sub {
					return i - k
				}
				return i + k
			}, typ: func(*scope) int { return tInt8 }, name: "?column?"}
		default:
			return l
		}
	}
}

// typeName parses a type and returns a conversion.
func (p *parser) typeName() (conv func(s *scope, v value) value, typ int) {
	n := p.ident()
	if p.take(".") {
		n = p.ident()
	}
	if n == "character" && p.take("varying") {
		n = "varchar"
	}
	if p.take("(") {
		panic(unsupported("type with modifier"))
	}
	arr := false
	for p.take("[") {
		p.want("]")
		arr = true
	}
	if arr {
		return func(s *scope, v value) value {
			if t, ok := v.(string); ok {
				return arrayLiteral(t)
			}
			return v
		}, tText
	}
	str := func(max int) func(s *scope, v value) value {
		return func(s *scope, v value) value {
			if v == nil {
				return nil
			}
			t := text(v)
			if max > 0 && len(t) > max {
				t = t[:max]
			}
			return t
		}
	}
	num := func(max int64) func(s *scope, v value) value {
		return func(s *scope, v value) value {
			switch v := v.(type) {
			case int64:
				if v > max {
					panic(failing("integer out of range"))
				}
				return v
			case string:
				i, err := strconv.ParseInt(v, 10, 64)
				if err != nil || i > max {
					panic(failing("invalid input syntax for integer"))
				}
				return i
			case nil:
				return nil
			}
			panic(unsupported("cast to a number"))
		}
	}
	switch n {
	case "text", "varchar":
		return str(0), tText
	case "name":
		return str(63), tName
	case "char":
		return str(1), tChar
	case "oid":
		return num(1<<32 - 1), tOid
	case "bigint", "int8":
		return num(1<<63 - 1), tInt8
	case "int", "integer", "int4":
		return func(s *scope, v value) value {
			// oid to int4 is a binary coercion
			if i, ok := v.(int64); ok && i > 1<<31-1 && i < 1<<32 {
				return int64(int32(uint32(i)))
			}
			return num(1<<31-1)(s, v)
		}, tInt4
	case "bool", "boolean":
		return func(s *scope, v value) value { b, n := truth(v); return tri(b, n) }, tBool
	case "regnamespace":
		return func(s *scope, v value) value {
			switch v := v.(type) {
			case nil:
				return nil
			case int64:
				for _, n := range s.db.namespaces {
					if n.oid == v {
						return quoteIdent(n.name)
					}
				}
				return text(v)
			case string:
				for _, n := range s.db.namespaces {
					if n.name == v || quoteIdent(n.name) == v {
						return n.oid
					}
				}
				panic(failing("schema " + v + " does not exist"))
			}
			panic(unsupported("cast"))
		}, tText
	}
	panic(unsupported("type " + n))
}

func quoteIdent(s string) string {
	if regexp.MustCompile(`^[a-z_][a-z0-9_$]*$`).MatchString(s) && !reserved[s] {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

func (p *parser) postfix() expr {
	e := p.primary()
	for {
		switch {
		case p.take("::"):
			conv, typ := p.typeName()
			in := e
			e = expr{eval: func(s *scope) value { return conv(s, in.eval(s)) }, typ: func(*scope) int { return typ }, name: in.name}
		case p.take("collate"):
			p.ident()
			if p.take(".") {
				p.ident()
			}
		default:
			return e
		}
	}
}

func (p *parser) primary() expr {
	t := p.peek()
	switch {
	case t.kind == 's':
		p.i++
		return konst(t.s, tText)
	case t.kind == 'n':
		p.i++
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			panic(unsupported("number " + t.s))
		}
		return konst(n, tInt4)
	case t.kind == 'p':
		p.i++
		n, _ := strconv.Atoi(t.s)
		return expr{eval: func(s *scope) value {
			if n < 1 || n > len(s.params) {
				panic(failing("there is no parameter $" + t.s))
			}
			return s.params[n-1]
		}, typ: func(*scope) int { return tText }, name: "?column?"}
	case p.take("-"):
		e := p.postfix()
		return expr{eval: func(s *scope) value {
			if i, ok := e.eval(s).(int64); ok {
				return -i
			}
			panic(unsupported("negation"))
		}, typ: e.typ, name: "?column?"}
	case p.take("("):
		if p.is("select") || p.is("with") {
			q := p.query()
			p.want(")")
			return scalar(q)
		}
		e := p.expr()
		if p.is(",") {
			panic(unsupported("row value"))
		}
		p.want(")")
		return e
	case p.take("exists"):
		p.want("(")
		q := p.query()
		p.want(")")
		return boolean(func(s *scope) value { return len(q.run(s).rows) > 0 })
	case p.take("array"):
		if p.take("(") {
			q := p.query()
			p.want(")")
			return expr{eval: func(s *scope) value {
				r := []value{}
				for _, row := range q.run(s).rows {
					r = append(r, row[0])
				}
				return r
			}, typ: func(*scope) int { return tText }, name: "array"}
		}
		p.want("[")
		var es []expr
		for !p.is("]") {
			es = append(es, p.expr())
			if !p.take(",") {
				break
			}
		}
		p.want("]")
		return expr{eval: func(s *scope) value {
			r := []value{}
			for _, e := range es {
				r = append(r, e.eval(s))
			}
			return r
		}, typ: func(*scope) int { return tText }, name: "array"}
	case p.take("case"):
		var conds, vals []expr
		var subject, other *expr
		if !p.is("when") {
			e := p.expr()
			subject = &e
		}
		for p.take("when") {
			conds = append(conds, p.expr())
			p.want("then")
			vals = append(vals, p.expr())
		}
		if p.take("else") {
			e := p.expr()
			other = &e
		}
		p.want("end")
		if len(vals) == 0 {
			panic(failing("syntax error in CASE"))
		}
		return expr{eval: func(s *scope) value {
			for i, c := range conds {
				v := c.eval(s)
				if subject != nil {
					v = applyOp("=", subject.eval(s), v)
				}
				if b, n := truth(v); b && !n {
					return vals[i].eval(s)
				}
			}
			if other != nil {
				return other.eval(s)
			}
			return nil
		}, typ: vals[0].typ, name: "case"}
	case p.take("cast"):
		p.want("(")
		in := p.expr()
		p.want("as")
		conv, typ := p.typeName()
		p.want(")")
		return expr{eval: func(s *scope) value { return conv(s, in.eval(s)) }, typ: func(*scope) int { return typ }, name: in.name}
	case p.take("true"):
		return konst(true, tBool)
	case p.take("false"):
		return konst(false, tBool)
	case p.take("null"):
		return konst(nil, tText)
	case p.take("current_catalog"):
		return expr{eval: func(s *scope) value { return s.db.name }, typ: func(*scope) int { return tName }, name: "current_catalog"}
	case p.take("current_schema"):
		if p.take("(") {
			p.want(")")
		}
		return konst("public", tName)
	case p.take("current_user"), p.take("session_user"), p.take("user"):
		return konst("u", tName)
	}
	if w := p.peek(); w.kind == 'i' && (w.s == "left" || w.s == "right") && p.is(w.s, "(") {
		p.i += 2
		return p.call(w.s)
	}
	n := p.ident()
	if p.take("(") {
		return p.call(n)
	}
	if p.peek().kind == 's' { // typed literal
		p.i--
		conv, typ := p.typeName()
		v := p.peek().s
		p.i++
		return expr{eval: func(s *scope) value { return conv(s, v) }, typ: func(*scope) int { return typ }, name: "?column?"}
	}
	q := ""
	for p.take(".") {
		if p.is("*") {
			panic(unsupported("whole row"))
		}
		q, n = n, p.ident()
		if p.take("(") {
			return p.call(n)
		}
	}
	find := func(s *scope) (tuple, int) {
		for sc := s; sc != nil; sc = sc.outer {
			var hit tuple
			at := -1
			for _, r := range sc.rows {
				if q != "" && r.alias != q {
					continue
				}
				if c := r.t.col(n); c >= 0 {
					if at >= 0 {
						panic(failing("column reference " + n + " is ambiguous"))
					}
					hit, at = r, c
				}
			}
			if at >= 0 {
				return hit, at
			}
		}
		panic(unsupported("column " + q + "." + n))
	}
	return expr{
		eval: func(s *scope) value { r, c := find(s); return r.row[c] },
		typ:  func(s *scope) int { r, c := find(s); return r.t.types[c] },
		name: n,
	}
}

func scalar(q *query) expr {
	return expr{eval: func(s *scope) value {
		r := q.run(s).rows
		switch {
		case len(r) == 0:
			return nil
		case len(r) > 1 || len(r[0]) != 1:
			panic(failing("more than one row returned by a subquery used as an expression"))
		}
		return r[0][0]
	}, typ: func(s *scope) int { return q.run(s).types[0] }, name: "?column?"}
}

func (p *parser) call(n string) expr {
	var args []expr
	star := false
	if p.take("*") {
		star = true
	}
	if n == "position" {
		args = append(args, p.add())
		p.want("in")
	}
	for !p.is(")") && !star {
		args = append(args, p.expr())
		if !p.take(",") && !p.take("in") && !p.take("from") && !p.take("for") {
			break
		}
	}
	p.want(")")
	fn := func(typ int, min, max int, f func(s *scope, a []value) value) expr {
		if len(args) < min || len(args) > max {
			panic(failing("function " + n + " does not exist"))
		}
		return expr{eval: func(s *scope) value {
			var vs []value
			for _, a := range args {
				v := a.eval(s)
				if v == nil && n != "coalesce" && n != "concat" {
					return nil
				}
				vs = append(vs, v)
			}
			return f(s, vs)
		}, typ: func(*scope) int { return typ }, name: n}
	}
	switch n {
	case "current_database":
		return fn(tName, 0, 0, func(s *scope, a []value) value { return s.db.name })
	case "version":
		return fn(tText, 0, 0, func(s *scope, a []value) value { return "PostgreSQL 12.1" })
	case "lower":
		return fn(tText, 1, 1, func(s *scope, a []value) value { return strings.ToLower(text(a[0])) })
	case "upper":
		return fn(tText, 1, 1, func(s *scope, a []value) value { return strings.ToUpper(text(a[0])) })
	case "length", "char_length":
		return fn(tInt4, 1, 1, func(s *scope, a []value) value { return int64(len([]rune(text(a[0])))) })
	case "quote_ident":
		return fn(tText, 1, 1, func(s *scope, a []value) value { return quoteIdent(text(a[0])) })
	case "right":
		return fn(tText, 2, 2, func(s *scope, a []value) value {
			r, k := []rune(text(a[0])), a[1].(int64)
			if k < 0 {
				k += int64(len(r))
				if k < 0 {
					k = 0
				}
			}
			if k > int64(len(r)) {
				k = int64(len(r))
			}
			return string(r[int64(len(r))-k:])
		})
	case "left":
		return fn(tText, 2, 2, func(s *scope, a []value) value {
			r, k := []rune(text(a[0])), a[1].(int64)
			if k < 0 {
				k += int64(len(r))
				if k < 0 {
					k = 0
				}
			}
			if k > int64(len(r)) {
				k = int64(len(r))
			}
			return string(r[:k])
		})
	case "substr", "substring":
		return fn(tText, 2, 3, func(s *scope, a []value) value {
			r := []rune(text(a[0]))
			from, ok := a[1].(int64)
			if !ok {
				panic(unsupported("substring with a pattern"))
			}
			to := int64(len(r)) + 1
			if len(a) == 3 {
				to = from + a[2].(int64)
			}
			if from < 1 {
				from = 1
			}
			if to > int64(len(r))+1 {
				to = int64(len(r)) + 1
			}
			if to <= from {
				return ""
			}
			return string(r[from-1 : to-1])
		})
	case "starts_with":
		return fn(tBool, 2, 2, func(s *scope, a []value) value { return strings.HasPrefix(text(a[0]), text(a[1])) })
	case "position":
		return fn(tInt4, 2, 2, func(s *scope, a []value) value {
			i := strings.Index(text(a[1]), text(a[0]))
			if i < 0 {
				return int64(0)
			}
			return int64(len([]rune(text(a[1])[:i])) + 1)
		})
	case "strpos":
		return fn(tInt4, 2, 2, func(s *scope, a []value) value {
			i := strings.Index(text(a[0]), text(a[1]))
			if i < 0 {
				return int64(0)
			}
			return int64(len([]rune(text(a[0])[:i])) + 1)
		})
	case "replace":
		return fn(tText, 3, 3, func(s *scope, a []value) value {
			return strings.ReplaceAll(text(a[0]), text(a[1]), text(a[2]))
		})
	case "concat":
		return fn(tText, 0, 99, func(s *scope, a []value) value {
			r := ""
			for _, v := range a {
				if v != nil {
					r += text(v)
				}
			}
			return r
		})
	case "trim", "btrim", "ltrim", "rtrim":
		return fn(tText, 1, 2, func(s *scope, a []value) value {
			cut := " "
			if len(a) == 2 {
				cut = text(a[1])
			}
			r := text(a[0])
			if n != "rtrim" {
				r = strings.TrimLeft(r, cut)
			}
			if n != "ltrim" {
				r = strings.TrimRight(r, cut)
			}
			return r
		})
	case "nullif":
		e := fn(tText, 2, 2, func(s *scope, a []value) value {
			if compare(a[0], a[1]) == 0 {
				return nil
			}
			return a[0]
		})
		e.typ = args[0].typ
		return e
	case "has_schema_privilege", "has_table_privilege", "has_any_column_privilege":
		return fn(tBool, 2, 3, func(s *scope, a []value) value {
			if n == "has_schema_privilege" {
				for _, x := range s.db.namespaces {
					if v := a[len(a)-2]; v == value(x.oid) || v == value(x.name) {
						return !x.barred
					}
				}
				panic(failing("schema does not exist"))
			}
			r := s.db.relation(a[len(a)-2])
			return !r.barred
		})
	case "pg_table_is_visible":
		return fn(tBool, 1, 1, func(s *scope, a []value) value {
			ns := s.db.nsName(s.db.relation(a[0]).ns)
			return ns == "public" || ns == "pg_catalog"
		})
	case "pg_is_other_temp_schema":
		return fn(tBool, 1, 1, func(s *scope, a []value) value { return strings.HasPrefix(s.db.nsName(a[0].(int64)), "pg_temp") })
	case "pg_my_temp_schema":
		return fn(tOid, 0, 0, func(s *scope, a []value) value { return int64(0) })
	case "pg_get_userbyid":
		return fn(tName, 1, 1, func(s *scope, a []value) value {
			if a[0] == value(int64(10)) {
				return "postgres"
			}
			return "u"
		})
	case "obj_description":
		return fn(tText, 1, 2, func(s *scope, a []value) value { return nil })
	case "pg_relation_size", "pg_table_size", "pg_total_relation_size", "pg_indexes_size":
		return fn(tInt8, 1, 2, func(s *scope, a []value) value { return s.db.relation(a[0]).pages * 8192 })
	case "coalesce":
		e := fn(tText, 1, 99, func(s *scope, a []value) value {
			for _, v := range a {
				if v != nil {
					return v
				}
			}
			return nil
		})
		e.typ = args[0].typ
		return e
	}
	panic(unsupported("function " + n))
}

// ---- queries

type item struct {
	e    expr
	name string
	star bool
	of   string
}

type source struct {
	alias string
	get   func(s *scope) *table
	kind  string // "", "inner", "left", "right", "full"
	on    *expr
	using []string
}

type query struct {
	values   [][]expr
	distinct bool
	items    []item
	from     []source
	where    *expr
	order    []expr
	desc     []bool
	limit    *expr
	offset   *expr
	next     *query // set operation
	op       string
	all      bool
	ctes     []string
	subs     map[string]*query
}

func parse(sql string) *query {
	p := &parser{t: tokens(sql), ctes: map[string]*query{}}
	if p.peek().kind == 0 || p.is(";") {
		for p.take(";") {
		}
		if p.peek().kind != 0 {
			panic(unsupported("several statements"))
		}
		return nil
	}
	q := p.query()
	for p.take(";") {
	}
	if p.peek().kind != 0 {
		p.syntaxError("")
	}
	return q
}

func (p *parser) query() *query {
	if p.take("with") {
		for {
			n := p.ident()
			p.want("as")
			p.take("materialized")
			p.take("not", "materialized")
			p.want("(")
			p.ctes[n] = p.query()
			p.want(")")
			if !p.take(",") {
				break
			}
		}
	}
	q := p.selectCore()
	for last := q; p.is("union") || p.is("except") || p.is("intersect"); {
		last.op = p.peek().s
		p.i++
		last.all = p.take("all")
		if last.op != "union" && (last != q || last.all) {
			panic(unsupported("set operations"))
		}
		if p.take("(") {
			last.next = p.selectCore()
			p.want(")")
		} else {
			last.next = p.selectCore()
		}
		last = last.next
	}
	if p.take("order") {
		p.want("by")
		for {
			q.order = append(q.order, p.expr())
			d := p.take("desc")
			if !d {
				p.take("asc")
			}
			q.desc = append(q.desc, d)
			if p.take("nulls") {
				p.i++
			}
			if !p.take(",") {
				break
			}
		}
	}
	for {
		if p.take("limit") {
			if !p.take("all") {
				e := p.expr()
				q.limit = &e
			}
		} else if p.take("offset") {
			e := p.expr()
			q.offset = &e
			_ = p.take("rows") || p.take("row")
		} else if p.is("fetch") || p.is("for") || p.is("group") || p.is("having") {
			panic(unsupported(p.peek().s))
		} else {
			return q
		}
	}
}

func (p *parser) selectCore() *query {
	q := &query{}
	if p.take("values") {
		for {
			p.want("(")
			var row []expr
			for {
				row = append(row, p.expr())
				if !p.take(",") {
					break
				}
			}
			p.want(")")
			q.values = append(q.values, row)
			if !p.take(",") {
				return q
			}
		}
	}
	if p.is("(") {
		panic(unsupported("parenthesised query"))
	}
	p.want("select")
	q.distinct = p.take("distinct")
	if q.distinct && p.is("on") {
		panic(unsupported("DISTINCT ON"))
	}
	p.take("all")
	for {
		it := item{}
		if p.take("*") {
			it.star = true
		} else if p.i+2 < len(p.t) && p.t[p.i+1].s == "." && p.t[p.i+2].s == "*" {
			it.star, it.of = true, p.ident()
			p.i += 2
		} else {
			it.e = p.expr()
			it.name = it.e.name
			if p.take("as") {
				t := p.peek() // any word is allowed here
				if t.kind != 'i' && t.kind != 'q' {
					panic(failing("syntax error at or near " + t.s))
				}
				p.i++
				it.name = t.s
			} else if t := p.peek(); t.kind == 'q' || t.kind == 'i' && !reserved[t.s] {
				it.name = t.s
				p.i++
			}
		}
		q.items = append(q.items, it)
		if !p.take(",") {
			break
		}
	}
	if p.take("from") {
		q.from = append(q.from, p.source())
		for {
			switch {
			case p.take(","), p.take("cross", "join"):
				q.from = append(q.from, p.source())
				continue
			case p.is("natural"):
				panic(unsupported("natural join"))
			}
			kind := ""
			switch {
			case p.take("inner", "join"), p.take("join"):
				kind = "inner"
			case p.take("left", "join"), p.take("left", "outer", "join"):
				kind = "left"
			case p.take("right", "join"), p.take("right", "outer", "join"):
				kind = "right"
			case p.take("full", "join"), p.take("full", "outer", "join"):
				panic(unsupported("full join"))
			}
			if kind == "" {
				break
			}
			s := p.source()
			s.kind = kind
			if p.take("on") {
				e := p.expr()
				s.on = &e
			} else {
				p.want("using")
				p.want("(")
				for {
					s.using = append(s.using, p.ident())
					if !p.take(",") {
						break
					}
				}
				p.want(")")
			}
			q.from = append(q.from, s)
		}
	}
	if p.take("where") {
		e := p.expr()
		q.where = &e
	}
	if p.is("group") || p.is("having") || p.is("window") {
		panic(unsupported(p.peek().s))
	}
	return q
}

func (p *parser) source() (s source) {
	if p.take("lateral") {
		panic(unsupported("lateral"))
	}
	if p.take("only") {
	}
	if p.take("(") {
		if !p.is("select") && !p.is("with") && !p.is("values") {
			panic(unsupported("parenthesised join"))
		}
		sub := p.query()
		p.want(")")
		s.get = func(sc *scope) *table { return sub.run(&scope{outer: sc.outer, db: sc.db, params: sc.params}) }
	} else {
		n := p.ident()
		s.alias = n
		schema := ""
		if p.take(".") {
			schema, n = n, p.ident()
			s.alias = n
		}
		if p.is("(") {
			panic(unsupported("table function"))
		}
		if c := p.ctes[n]; c != nil && schema == "" {
			s.get = func(sc *scope) *table { return c.run(&scope{outer: sc.outer, db: sc.db, params: sc.params}) }
		} else {
			s.get = func(sc *scope) *table { return sc.db.table(schema, n) }
		}
	}
	if p.take("as") {
		s.alias = p.ident()
	} else if t := p.peek(); t.kind == 'q' || t.kind == 'i' && !reserved[t.s] {
		s.alias = p.ident()
	}
	if p.is("(") {
		var names []string
		p.want("(")
		for {
			names = append(names, p.ident())
			if !p.take(",") {
				break
			}
		}
		p.want(")")
		get := s.get
		s.get = func(sc *scope) *table {
			t := *get(sc)
			t.cols = append(append([]string(nil), names...), t.cols[min(len(names), len(t.cols)):]...)
			return &t
		}
	}
	return
}

func nulls(t *table) []value { return make([]value, len(t.cols)) }

// run evaluates the query.
func (q *query) run(outer *scope) *table {
	base := &scope{outer: outer, db: outer.db, params: outer.params}
	res := &table{}
	if q.values != nil {
		for _, row := range q.values {
			var r []value
			for _, e := range row {
				r = append(r, e.eval(base))
			}
			res.rows = append(res.rows, r)
		}
		for i, e := range q.values[0] {
			res.cols, res.types = append(res.cols, fmt.Sprintf("column%d", i+1)), append(res.types, e.typ(base))
		}
		return res
	}
	// joins
	rows := [][]tuple{nil}
	var shape []tuple
	hidden := map[string]bool{}
	for _, src := range q.from {
		t := src.get(base)
		match := func(left []tuple, row []value) bool {
			sc := &scope{rows: append(append([]tuple(nil), left...), tuple{src.alias, t, row}), outer: outer, db: outer.db, params: outer.params}
			if src.on != nil {
				b, n := truth(src.on.eval(sc))
				return b && !n
			}
			for _, u := range src.using {
				hidden[u] = true
				ok := false
				for _, l := range left {
					if c := l.t.col(u); c >= 0 {
						v := applyOp("=", l.row[c], row[t.col(u)])
						b, n := truth(v)
						ok = b && !n
					}
				}
				if !ok {
					return false
				}
			}
			return true
		}
		var out [][]tuple
		matched := make([]bool, len(t.rows))
		for _, l := range rows {
			any := false
			for k, row := range t.rows {
				if match(l, row) {
					any, matched[k] = true, true
					out = append(out, append(append([]tuple(nil), l...), tuple{src.alias, t, row}))
				}
			}
			if !any && src.kind == "left" {
				out = append(out, append(append([]tuple(nil), l...), tuple{src.alias, t, nulls(t)}))
			}
		}
		if src.kind == "right" {
			for k, row := range t.rows {
				if !matched[k] {
					var l []tuple
					for _, s := range shape {
						l = append(l, tuple{s.alias, s.t, nulls(s.t)})
					}
					out = append(out, append(l, tuple{src.alias, t, row}))
				}
			}
		}
		for _, s := range shape {
			if s.alias == src.alias {
				panic(failing("table name " + src.alias + " specified more than once"))
			}
		}
		shape = append(shape, tuple{src.alias, t, nulls(t)})
		rows = out
	}
	if len(hidden) > 0 {
		panic(unsupported("join using"))
	}
	scopeOf := func(r []tuple) *scope { return &scope{rows: r, outer: outer, db: outer.db, params: outer.params} }
	// columns
	proto := scopeOf(shape)
	type outCol struct {
		e *expr
		t int // index of the tuple
		c int
	}
	var cols []outCol
	for i := range q.items {
		it := &q.items[i]
		if it.star {
			for k, s := range shape {
				if it.of != "" && it.of != s.alias {
					continue
				}
				for c := range s.t.cols {
					res.cols, res.types = append(res.cols, s.t.cols[c]), append(res.types, s.t.types[c])
					cols = append(cols, outCol{nil, k, c})
				}
			}
			continue
		}
		res.cols, res.types = append(res.cols, it.name), append(res.types, it.e.typ(proto))
		cols = append(cols, outCol{&it.e, 0, 0})
	}
	if q.where != nil { // names are resolved even if there is nothing to filter
		func() {
			defer func() {
				if e, ok := recover().(unsupported); ok {
					panic(e)
				}
			}()
			q.where.eval(proto)
		}()
	}
	type outRow struct {
		vals []value
		keys []value
	}
	var outs []outRow
	for _, r := range rows {
		sc := scopeOf(r)
		if q.where != nil {
			if b, n := truth(q.where.eval(sc)); !b || n {
				continue
			}
		}
		var o outRow
		for _, c := range cols {
			if c.e != nil {
				o.vals = append(o.vals, c.e.eval(sc))
			} else {
				o.vals = append(o.vals, r[c.t].row[c.c])
			}
		}
		for _, e := range q.order {
			o.keys = append(o.keys, q.orderKey(e, sc, res, o.vals))
		}
		outs = append(outs, o)
	}
	if len(q.order) > 0 {
		sort.SliceStable(outs, func(i, k int) bool {
			for n := range q.order {
				a, b := outs[i].keys[n], outs[k].keys[n]
				c := 0
				switch {
				case a == nil && b == nil:
				case a == nil:
					c = 1
				case b == nil:
					c = -1
				default:
					c = compare(a, b)
				}
				if q.desc[n] {
					c = -c
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	for _, o := range outs {
		res.rows = append(res.rows, o.vals)
	}
	if q.distinct {
		res.rows = dedup(res.rows)
	}
	if q.next != nil {
		if len(q.order) > 0 {
			panic(unsupported("ORDER BY of a set operation"))
		}
		n := q.next.run(outer)
		if len(n.cols) != len(res.cols) {
			panic(failing("each UNION query must have the same number of columns"))
		}
		has := map[string]bool{}
		for _, r := range n.rows {
			has[fmt.Sprintf("%q", r)] = true
		}
		switch q.op {
		case "union":
			res.rows = append(res.rows, n.rows...)
			if !q.all {
				res.rows = dedup(res.rows)
			}
		default:
			var keep [][]value
			for _, r := range dedup(res.rows) {
				if has[fmt.Sprintf("%q", r)] == (q.op == "intersect") {
					keep = append(keep, r)
				}
			}
			res.rows = keep
		}
	}
	count := func(e *expr) int {
		if n, ok := e.eval(base).(int64); ok && n >= 0 {
			return int(n)
		}
		panic(unsupported("LIMIT/OFFSET"))
	}
	if q.offset != nil {
		res.rows = res.rows[min(count(q.offset), len(res.rows)):]
	}
	if q.limit != nil {
		res.rows = res.rows[:min(count(q.limit), len(res.rows))]
	}
	return res
}

func dedup(rows [][]value) (r [][]value) {
	seen := map[string]bool{}
	for _, x := range rows {
		k := fmt.Sprintf("%q", x)
		if !seen[k] {
			seen[k] = true
			r = append(r, x)
		}
	}
	return
}

// orderKey: a number is a column, a name may be an output column.
func (q *query) orderKey(e expr, sc *scope, res *table, vals []value) value {
	if n, ok := func() (n int64, ok bool) {
		defer func() { _ = recover() }()
		n, ok = e.eval(&scope{db: sc.db}).(int64)
		return
	}(); ok && n >= 1 && int(n) <= len(vals) {
		return vals[n-1]
	}
	if c := res.col(e.name); c >= 0 && e.name != "?column?" {
		return vals[c]
	}
	return e.eval(sc)
}

// ---- the catalog

type namespace struct {
	oid    int64
	name   string
	barred bool // the user has no privilege on it
	owner  int64
	acl    value
}

// relation is a row of pg_class. The fields after kind make no difference to what it is.
type relation struct {
	oid  int64
	name string
	ns   int64
	kind string
	traits
}

type traits struct {
	persistence          string // "p" if empty
	owner                int64  // 10 if 0
	barred               bool   // the user has no privilege on it
	partition, populated bool
	flags                bool // relhasindex and the like
	pages                int64
	tuples               int64
	acl                  value
	options              value
	atts                 int64
	typ, file, space, am int64
}

type catalog struct {
	name       string
	namespaces []namespace
	relations  []relation
}

func (c *catalog) nsName(oid int64) string {
	for _, n := range c.namespaces {
		if n.oid == oid {
			return n.name
		}
	}
	return ""
}

// relation finds a relation by its object id.
func (c *catalog) relation(o value) *relation {
	for i := range c.relations {
		if value(c.relations[i].oid) == o {
			return &c.relations[i]
		}
	}
	panic(unsupported(fmt.Sprintf("relation %v", o)))
}

// classColumns are the columns of pg_class.
var classColumns = []struct {
	name string
	typ  int
	get  func(c *catalog, r *relation) value
}{
	{"oid", tOid, func(c *catalog, r *relation) value { return r.oid }},
	{"relname", tName, func(c *catalog, r *relation) value { return r.name }},
	{"relnamespace", tOid, func(c *catalog, r *relation) value { return r.ns }},
	{"relkind", tChar, func(c *catalog, r *relation) value { return r.kind }},
	{"relpersistence", tChar, func(c *catalog, r *relation) value {
		if n := c.nsName(r.ns); strings.HasPrefix(n, "pg_temp") || strings.HasPrefix(n, "pg_toast_temp") {
			return "t"
		}
		if r.persistence != "" {
			return r.persistence
		}
		return "p"
	}},
	{"relowner", tOid, func(c *catalog, r *relation) value { return max(r.owner, 10) }},
	{"relispartition", tBool, func(c *catalog, r *relation) value { return r.partition }},
	{"relispopulated", tBool, func(c *catalog, r *relation) value { return r.kind != "m" || r.populated }},
	{"relhasindex", tBool, func(c *catalog, r *relation) value { return r.flags }},
	{"relhasrules", tBool, func(c *catalog, r *relation) value { return r.flags || r.kind == "v" }},
	{"relhastriggers", tBool, func(c *catalog, r *relation) value { return r.flags }},
	{"relhassubclass", tBool, func(c *catalog, r *relation) value { return r.flags }},
	{"relrowsecurity", tBool, func(c *catalog, r *relation) value { return r.flags }},
	{"relforcerowsecurity", tBool, func(c *catalog, r *relation) value { return r.flags }},
	{"relisshared", tBool, func(c *catalog, r *relation) value { return false }},
	{"relpages", tInt4, func(c *catalog, r *relation) value { return r.pages }},
	{"reltuples", tInt8, func(c *catalog, r *relation) value { return r.tuples }},
	{"relacl", tText, func(c *catalog, r *relation) value { return r.acl }},
	{"reloptions", tText, func(c *catalog, r *relation) value { return r.options }},
	{"relnatts", tInt4, func(c *catalog, r *relation) value { return r.atts }},
	{"reltype", tOid, func(c *catalog, r *relation) value { return r.typ }},
	{"reloftype", tOid, func(c *catalog, r *relation) value { return r.typ }},
	{"relfilenode", tOid, func(c *catalog, r *relation) value { return r.file }},
	{"reltablespace", tOid, func(c *catalog, r *relation) value { return r.space }},
	{"reltoastrelid", tOid, func(c *catalog, r *relation) value { return r.space }},
	{"relrewrite", tOid, func(c *catalog, r *relation) value { return int64(0) }},
	{"relam", tOid, func(c *catalog, r *relation) value { return r.am }},
	{"tableoid", tOid, func(c *catalog, r *relation) value { return int64(1259) }},
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (c *catalog) table(schema, n string) *table {
	if schema != "" && schema != "pg_catalog" && schema != "information_schema" {
		panic(failing("relation " + schema + "." + n + " does not exist"))
	}
	if schema == "information_schema" {
		n = "information_schema." + n
	}
	switch n {
	case "pg_class":
		t := &table{}
		for _, f := range classColumns {
			t.cols, t.types = append(t.cols, f.name), append(t.types, f.typ)
		}
		for i := range c.relations {
			r, row := &c.relations[i], []value{}
			for _, f := range classColumns {
				row = append(row, f.get(c, r))
			}
			t.rows = append(t.rows, row)
		}
		return t
	case "pg_namespace":
		t := &table{cols: []string{"oid", "nspname", "nspowner", "tableoid", "nspacl"}, types: []int{tOid, tName, tOid, tOid, tText}}
		for _, n := range c.namespaces {
			t.rows = append(t.rows, []value{n.oid, n.name, max(n.owner, 10), int64(2615), n.acl})
		}
		return t
	case "pg_database":
		t := &table{cols: []string{"oid", "datname", "datallowconn"}, types: []int{tOid, tName, tBool}}
		for i, d := range []string{"template1", "template0", "postgres", c.name, "zz other"} {
			t.rows = append(t.rows, []value{int64(i + 1), d, true})
		}
		return t
	case "pg_tables", "pg_views", "pg_matviews", "information_schema.tables":
		var t *table
		kinds := map[string]string{"pg_tables": "rp", "pg_views": "v", "pg_matviews": "m", "information_schema.tables": "rvfp"}[n]
		switch n {
		case "pg_tables":
			t = &table{cols: []string{"schemaname", "tablename"}, types: []int{tName, tName}}
		case "pg_views":
			t = &table{cols: []string{"schemaname", "viewname"}, types: []int{tName, tName}}
		case "pg_matviews":
			t = &table{cols: []string{"schemaname", "matviewname"}, types: []int{tName, tName}}
		default:
			t = &table{cols: []string{"table_schema", "table_name", "table_catalog"}, types: []int{tName, tName, tName}}
		}
		for _, r := range c.relations {
			if n == "information_schema.tables" && (r.barred || strings.HasPrefix(c.nsName(r.ns), "pg_t")) {
				continue // shows what the user has a privilege on
			}
			if strings.Contains(kinds, r.kind) {
				row := []value{c.nsName(r.ns), r.name}
				if len(t.cols) == 3 {
					row = append(row, c.name)
				}
				t.rows = append(t.rows, row)
			}
		}
		return t
	}
	panic(unsupported("relation " + n))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
