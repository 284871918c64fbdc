package gsch

import (
	"strings"
)

// An independent recogniser of the zserio grammar, as far as go-zserio's
// parser takes it. It computes, for every rule and position, the set of all
// ends, so that it accepts exactly the context-free language.

type Tok struct {
	Kind string // the text of operators and keywords, else ID, INT, BIN, OCT, HEX, FLOAT, DOUBLE, STRING, BOOL, BAD
	Text string
	At   int
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`align bit bool bitmask bytes case choice const default enum explicit extend extern
		float16 float32 float64 function if implicit import instantiate int int16 int32 int64 int8 isset lengthof numbits on optional
		package packed pubsub publish return rule rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string
		struct subscribe subtype topic uint16 uint32 uint64 uint8 union using valueof varint varint16 varint32 varint64 varsize varuint
		varuint16 varuint32 varuint64 zserio_compatibility_version`) {
		keywords[k] = true
	}
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isHex(c byte) bool   { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

// number returns the length of the longest floating point literal, and its kind.
func number(s string) (int, string) {
	digits := func(i int) int {
		for i < len(s) && isDigit(s[i]) {
			i++
		}
		return i
	}
	exponent := func(i int) int {
		if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
			j := i + 1
			if j < len(s) && (s[j] == '+' || s[j] == '-') {
				j++
			}
			if k := digits(j); k > j {
				return k
			}
		}
		return i
	}
	n := 0
	d := digits(0)
	if d > 0 {
		if e := exponent(d); e > d {
			n = e
		}
		if d < len(s) && s[d] == '.' {
			n = exponent(digits(d + 1))
		}
	} else if len(s) > 1 && s[0] == '.' && isDigit(s[1]) {
		n = exponent(digits(1))
	}
	if n > 0 && n < len(s) && (s[n] == 'f' || s[n] == 'F') {
		return n + 1, "FLOAT"
	}
	return n, "DOUBLE"
}

func stringLit(s string) int {
	i := 1
	for i < len(s) {
		switch c := s[i]; {
		case c == '"':
			return i + 1
		case c == '\r' || c == '\n' || c == '\f':
			return 0
		case c == '\\':
			if i+1 >= len(s) {
				return 0
			}
			switch e := s[i+1]; {
			case strings.IndexByte(`"\rnft`, e) >= 0:
				i += 2
			case e == 'u' || e == 'x':
				k := map[byte]int{'u': 4, 'x': 2}[e]
				for j := 0; j < k; j++ {
					if i+2+j >= len(s) || !isHex(s[i+2+j]) {
						return 0
					}
				}
				i += 2 + k
			case e == '0' && i+2 < len(s) && s[i+2] >= '0' && s[i+2] <= '7':
				i += 3 // further digits are characters
			default:
				return 0
			}
		default:
			i++
		}
	}
	return 0
}

// Lex returns the tokens; BAD stands for anything that is none.
func Lex(s string) []Tok {
	var out []Tok
	for i := 0; i < len(s); {
		c := s[i]
		rest := s[i:]
		add := func(kind string, n int) {
			out = append(out, Tok{kind, rest[:n], i})
			i += n
		}
		switch {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f':
			i++
		case strings.HasPrefix(rest, "//"):
			n := strings.IndexAny(rest, "\r\n\f")
			if n < 0 {
				n = len(rest)
			}
			i += n
		case strings.HasPrefix(rest, "/*") && strings.Contains(rest[2:], "*/"):
			from := 2
			if strings.HasPrefix(rest, "/**") && strings.Contains(rest[3:], "*/") {
				from = 3
			}
			i += from + strings.Index(rest[from:], "*/") + 2
		case c == '"':
			if n := stringLit(rest); n > 0 {
				add("STRING", n)
				break
			}
			n := strings.IndexByte(rest[1:], '"')
			if n < 0 {
				add("BAD", len(rest))
			} else {
				add("BAD", n+2)
			}
		case c == '@':
			done := false
			for _, k := range []string{"@deprecated", "@removed", "@index"} {
				if strings.HasPrefix(rest, k) {
					add(k, len(k))
					done = true
					break
				}
			}
			if !done {
				add("BAD", 1)
			}
		case isWord(c) || c == '.':
			n := 0
			for n < len(rest) && isWord(rest[n]) {
				n++
			}
			w := rest[:n]
			if f, kind := number(rest); f > 0 && f >= n {
				add(kind, f)
				break
			}
			if n == 0 {
				add(".", 1)
				break
			}
			add(word(w), n)
		default:
			done := false
			for _, op := range []string{"==", ">=", "<=", "&&", "||", "<<", "!="} {
				if strings.HasPrefix(rest, op) {
					add(op, 2)
					done = true
					break
				}
			}
			if done {
				break
			}
			if strings.IndexByte("&=!:,/>{[(<-%*|+?}]);~^", c) >= 0 {
				add(string(c), 1)
			} else {
				add("BAD", 1)
			}
		}
	}
	return out
}

func word(w string) string {
	if w == "true" || w == "false" {
		return "BOOL"
	}
	if keywords[w] {
		return w
	}
	if !isDigit(w[0]) {
		return "ID"
	}
	all := func(s string, ok func(byte) bool) bool {
		for i := range s {
			if !ok(s[i]) {
				return false
			}
		}
		return len(s) > 0
	}
	last := w[len(w)-1]
	switch {
	case (last == 'b' || last == 'B') && all(w[:len(w)-1], func(c byte) bool { return c == '0' || c == '1' }):
		return "BIN"
	case w == "0" || w[0] != '0' && all(w, isDigit):
		return "INT"
	case w[0] == '0' && all(w[1:], func(c byte) bool { return c >= '0' && c <= '7' }):
		return "OCT"
	case len(w) > 2 && (w[1] == 'x' || w[1] == 'X') && w[0] == '0' && all(w[2:], isHex):
		return "HEX"
	}
	return "BAD"
}

type par struct {
	t    []Tok
	memo map[string]map[int][]int
	// role of the identifier at position only: matches no other role
	at   int
	role string
}

type rule func(p *par, i int) []int

func tok(kinds ...string) rule {
	set := map[string]bool{}
	for _, k := range kinds {
		set[k] = true
	}
	return func(p *par, i int) []int {
		if i < len(p.t) && set[p.t[i].Kind] {
			return []int{i + 1}
		}
		return nil
	}
}

func id(role string) rule {
	return func(p *par, i int) []int {
		if i < len(p.t) && p.t[i].Kind == "ID" && (i != p.at || role == p.role) {
			return []int{i + 1}
		}
		return nil
	}
}

func merge(a []int, b []int) []int {
next:
	for _, x := range b {
		for _, y := range a {
			if x == y {
				continue next
			}
		}
		a = append(a, x)
	}
	return a
}

func seq(rs ...any) rule {
	var l []rule
	for _, r := range rs {
		switch x := r.(type) {
		case string:
			l = append(l, tok(x))
		case rule:
			l = append(l, x)
		case func(*par, int) []int:
			l = append(l, x)
		}
	}
	return func(p *par, i int) []int {
		at := []int{i}
		for _, r := range l {
			var next []int
			for _, k := range at {
				next = merge(next, r(p, k))
			}
			if at = next; len(at) == 0 {
				return nil
			}
		}
		return at
	}
}

func alt(rs ...rule) rule {
	return func(p *par, i int) []int {
		var out []int
		for _, r := range rs {
			out = merge(out, r(p, i))
		}
		return out
	}
}

func opt(r rule) rule {
	return func(p *par, i int) []int { return merge([]int{i}, r(p, i)) }
}

func star(r rule) rule {
	return func(p *par, i int) []int {
		out := []int{i}
		for k := 0; k < len(out); k++ {
			out = merge(out, r(p, out[k]))
		}
		return out
	}
}

func list(r rule) rule { return seq(r, star(seq(",", r))) }

var rules = map[string]rule{}

func ref(name string) rule {
	return func(p *par, i int) []int {
		m := p.memo[name]
		if m == nil {
			m = map[int][]int{}
			p.memo[name] = m
		}
		if r, ok := m[i]; ok {
			return r
		}
		r := rules[name](p, i)
		m[i] = r
		return r
	}
}

// Roles of identifiers.
var Roles = []string{"package", "importPackage", "importSymbol", "type", "const", "templateParameter", "parameter", "field", "function", "item", "typeRef", "exprRef", "member"}

func init() {
	e, tr, ti := ref("expression"), ref("typeReference"), ref("typeInstantiation")
	lit := tok("BIN", "OCT", "INT", "HEX", "BOOL", "STRING", "FLOAT", "DOUBLE")
	primary := alt(
		seq("(", e, ")"),
		seq("isset", "(", e, ",", e, ")"),
		seq(tok("lengthof", "valueof", "numbits"), "(", e, ")"),
		lit, tok("@index"), id("exprRef"))
	operand := seq(star(tok("+", "-", "!", "~")), primary, star(alt(seq("(", ")"), seq("[", e, "]"), seq(".", id("member")))))
	binop := alt(tok("*", "/", "%", "+", "-", "<<", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"), seq(">", ">"))
	rules["expression"] = seq(operand, star(seq(binop, operand)), opt(seq("?", e, ":", e)))
	builtin := alt(tok("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "varint", "varint16", "varint32", "varint64",
		"varsize", "varuint", "varuint16", "varuint32", "varuint64", "bool", "string", "float16", "float32", "float64", "extern", "bytes"),
		seq(tok("bit", "int"), ":", tok("INT")), tok("bit", "int"))
	rules["typeReference"] = alt(builtin, seq(id("typeRef"), star(seq(".", id("typeRef"))), opt(seq("<", list(tr), ">"))))
	targ := alt(seq("explicit", id("exprRef")), e)
	rules["typeInstantiation"] = seq(tr, opt(alt(seq("(", list(targ), ")"), seq("<", e, ">"))))
	tparams := seq("<", list(id("templateParameter")), ">")
	params := seq("(", list(seq(tr, id("parameter"))), ")")
	fieldTypeID := seq(opt(tok("packed")), opt(tok("implicit")), ti, id("field"), opt(seq("[", opt(e), "]")))
	structField := seq(opt(seq("align", "(", e, ")", ":")), opt(seq(e, ":")), opt(tok("extend")), opt(tok("optional")), fieldTypeID,
		opt(seq("=", e)), opt(seq("if", e)), opt(seq(":", e)), ";")
	function := seq("function", tr, id("function"), "(", ")", "{", "return", e, ";", "}")
	choiceField := seq(fieldTypeID, opt(seq(":", e)))
	caseR := seq("case", e, ":")
	sqlC := seq("sql", e)
	decl := alt(
		seq("const", ti, id("const"), "=", e, ";"),
		seq("rule_group", id("type"), "{", star(seq("rule", e, ";")), "}", ";"),
		seq("subtype", tr, id("type"), ";"),
		seq("struct", id("type"), opt(tparams), opt(params), "{", star(ref("structField")), star(function), "}", ";"),
		seq("choice", id("type"), opt(tparams), params, "on", e, "{", star(seq(caseR, star(caseR), opt(choiceField), ";")),
			opt(seq("default", ":", opt(choiceField), ";")), star(function), "}", ";"),
		seq("union", id("type"), opt(tparams), opt(params), "{", star(seq(choiceField, ";")), star(function), "}", ";"),
		seq("enum", ti, id("type"), "{", list(seq(opt(tok("@deprecated", "@removed")), id("item"), opt(seq("=", e)))), opt(tok(",")), "}", ";"),
		seq("bitmask", ti, id("type"), "{", list(seq(id("item"), opt(seq("=", e)))), opt(tok(",")), "}", ";"),
		seq("sql_table", id("type"), opt(tparams), opt(seq("using", id("exprRef"))), "{",
			star(seq(opt(tok("sql_virtual")), ti, id("field"), opt(sqlC), ";")), opt(seq(sqlC, ";")), opt(seq("sql_without_rowid", ";")), "}", ";"),
		seq("sql_database", id("type"), "{", seq(ti, id("field"), ";"), star(seq(ti, id("field"), ";")), "}", ";"),
		seq("service", id("type"), "{", star(seq(tr, id("function"), "(", tr, ")", ";")), "}", ";"),
		seq("pubsub", id("type"), "{", star(seq(opt(tok("publish", "subscribe")), "topic", "(", e, ")", tr, id("field"), ";")), "}", ";"),
		seq("instantiate", tr, id("type"), ";"))
	rules["structField"] = structField
	rules["decl"] = decl
	imp := seq("import", id("importPackage"), ".", star(seq(id("importPackage"), ".")), alt(id("importSymbol"), tok("*")), ";")
	rules["file"] = seq(opt(seq("zserio_compatibility_version", "(", "STRING", ")", ";")),
		opt(seq("package", id("package"), star(seq(".", id("package"))), ";")), star(imp), star(ref("decl")))
}

// Valid reports whether the tokens form a schema file.
func Valid(t []Tok) bool { return recognise(&par{t: t, memo: map[string]map[int][]int{}, at: -1}) }

func recognise(p *par) bool {
	for _, end := range rules["file"](p, 0) {
		if end == len(p.t) {
			return true
		}
	}
	return false
}

// RoleOf returns what the identifier at a position is.
func RoleOf(t []Tok, at int) []string {
	var out []string
	for _, r := range Roles {
		if recognise(&par{t: t, memo: map[string]map[int][]int{}, at: at, role: r}) {
			out = append(out, r)
		}
	}
	return out
}
