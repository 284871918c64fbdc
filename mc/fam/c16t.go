package fam

import (
	"fmt"
	"math/bits"
	"strings"

	. "mc/zs"
)

// Expressions on enums, bitmasks and strings: their values are an int64, a
// uint64 and a string here, results that are booleans or integers a bool and an
// int64.

// TEnv is an assignment of the variables.
type TEnv map[string]any

// TypedEx is an expression, where its value can be seen, and its value.
type TypedEx struct {
	Text, Root, Fn, Val string
	Vars                []string
	Eval                func(TEnv) any
}

// TVars are the variables and their values; how they are set is up to cmd/run.
var TVars = map[string][]any{
	"p":  {false, true},
	"en": {int64(3), int64(-2), int64(-1)}, "eb": {int64(3), int64(-1)}, "n1.c": {int64(-2), int64(3)}, "n2.c": {int64(3), int64(-1)}, "ce[1]": {int64(-2), int64(3)}, "fe()": {int64(3), int64(-1)}, "se": {int64(-1), int64(3)}, "np.in.c": {int64(3), int64(-2)},
	"ma": {uint64(0), uint64(1), uint64(0x82)}, "mb": {uint64(3), uint64(0x80)}, "n2.m": {uint64(1), uint64(2)}, "ms[0]": {uint64(0), uint64(3)}, "fm()": {uint64(2), uint64(0x81)}, "sm": {uint64(1), uint64(0x83)},
	"nm": {uint64(0), uint64(1), uint64(0x1f), uint64(0x14)}, "nn": {uint64(2), uint64(0x1e)}, "wm": {uint64(0), uint64(1), ^uint64(0), uint64(1) << 63},
	"s1": {"", "x", "kk"}, "s2": {"x", "kk"}, "n2.s": {"kk", "x"}, "cs[0]": {"", "kk"}, "fs()": {"x", "kk"}, "ss": {"x", ""},
}

const c16tRaw = `
enum int8 Color { RED = 3, GREEN = -2, BLUE };
bitmask uint8 Mask { R = 1, W, X = 0x80 };
bitmask bit:5 Nib { A, B, C };
bitmask uint64 Wide { A, B, C };
subtype Color SColor;
subtype SColor SSColor;
subtype Mask SMask;
subtype string SStr;
const bool KB = true;
const string KSTR = "kk";
const Color KC = Color.BLUE;
const SSColor KSC = SSColor.RED;
const Nib KN = ~Nib.A;
const Wide KW = ~(Wide.A | Wide.B);
const Mask KX = ~SMask.X;
const Mask KM = Mask.R | Mask.W;
struct In { Color c; Mask m; string s; uint8 n; };
subtype In SubIn;
subtype SubIn SubSub;
struct InIn { SubSub in; };
subtype InIn SubInIn;
`

const c16tFields = `
    bool p; Nib nm; Nib nn; Wide wm; Color en; Color eb; Mask ma; Mask mb; string s1; string s2; SubIn n1; SubSub n2; Color ce[]; Mask ms[]; string cs[];
    SColor se; SMask sm; SStr ss; Color fex; Mask fmx; string fsx; SubInIn np;
    function Color fe() { return fex; }
    function Mask fm() { return fmx; }
    function SStr fs() { return fsx; }
`

// texpr is an expression with its value; k is 'E', 'M', 'S', 'B' or 'I', prec
// the precedence of its operator (0: an atom, otherwise higher binds less).
type texpr struct {
	k    byte
	text string
	prec int
	vars []string
	ev   func(TEnv) any
}

func (x *texpr) in(prec int, full bool) string {
	if x.prec > prec || full && x.prec > 0 {
		return "(" + x.text + ")"
	}
	return x.text
}

func tvar(k byte, n string) *texpr {
	return &texpr{k, n, 0, []string{n}, func(e TEnv) any { return e[n] }}
}
func tcon(k byte, n string, v any) *texpr {
	return &texpr{k, n, 0, nil, func(TEnv) any { return v }}
}

func cat(xs ...*texpr) (r []string) {
	for _, x := range xs {
		r = append(r, x.vars...)
	}
	return
}

// the precedences of the operators used here, tightest first: as in zserio's grammar (and Go): == and != bind tighter than &, ^ and |.
var tprec = map[string]int{"+": 1, "==": 2, "!=": 2, "&": 3, "^": 4, "|": 5, "&&": 7, "||": 8, "?": 9}

func tbin(op string, a, b *texpr, full bool) *texpr {
	p := tprec[op]
	r := &texpr{k: a.k, text: a.in(p, full) + " " + op + " " + b.in(p-1, full), prec: p, vars: cat(a, b)}
	switch op {
	case "==", "!=":
		r.k = 'B'
		r.ev = func(e TEnv) any { return (a.ev(e) == b.ev(e)) == (op == "==") }
	case "&&":
		r.ev = func(e TEnv) any { return a.ev(e).(bool) && b.ev(e).(bool) }
	case "||":
		r.ev = func(e TEnv) any { return a.ev(e).(bool) || b.ev(e).(bool) }
	case "+":
		if a.k == 'I' {
			r.ev = func(e TEnv) any { return a.ev(e).(int64) + b.ev(e).(int64) }
		} else {
			r.ev = func(e TEnv) any { return a.ev(e).(string) + b.ev(e).(string) }
		}
	case "&":
		r.ev = func(e TEnv) any { return a.ev(e).(uint64) & b.ev(e).(uint64) }
	case "|":
		r.ev = func(e TEnv) any { return a.ev(e).(uint64) | b.ev(e).(uint64) }
	case "^":
		r.ev = func(e TEnv) any { return a.ev(e).(uint64) ^ b.ev(e).(uint64) }
	}
	return r
}

func tif(c, a, b *texpr) *texpr {
	return &texpr{a.k, c.in(8, false) + " ? " + a.in(8, false) + " : " + b.in(9, false), 9, cat(c, a, b), func(e TEnv) any {
		if c.ev(e).(bool) {
			return a.ev(e)
		}
		return b.ev(e)
	}}
}

func tcall(k byte, f string, a *texpr, ev func(any) any) *texpr {
	return &texpr{k, f + "(" + a.text + ")", 0, a.vars, func(e TEnv) any { return ev(a.ev(e)) }}
}

func tvalue(a *texpr) *texpr {
	return tcall('I', "valueof", a, func(v any) any {
		if u, ok := v.(uint64); ok {
			return int64(u)
		}
		return v
	})
}

func tisset(m *texpr, item string, bit uint64) *texpr {
	return &texpr{'B', "isset(" + m.text + ", " + item + ")", 0, m.vars, func(e TEnv) any { return m.ev(e).(uint64)&bit != 0 }}
}

func tneg(a *texpr, mask uint64) *texpr {
	return &texpr{a.k, "~" + a.in(0, false), 0, a.vars, func(e TEnv) any { return ^a.ev(e).(uint64) & mask }}
}

func tnot(a *texpr) *texpr {
	return &texpr{'B', "!" + a.in(0, false), 0, a.vars, func(e TEnv) any { return !a.ev(e).(bool) }}
}

// c16typed adds the schemas and lists the expressions.
func c16typed(s *Set, th bool) (items []*TypedEx) {
	E := []*texpr{tvar('E', "en"), tvar('E', "eb"), tcon('E', "Color.RED", int64(3)), tcon('E', "KC", int64(-1)), tvar('E', "n1.c"), tvar('E', "n2.c"), tvar('E', "ce[1]"), tvar('E', "fe()"), tvar('E', "se"), tcon('E', "KSC", int64(3)), tcon('E', "SColor.GREEN", int64(-2)), tvar('E', "np.in.c")}
	M := []*texpr{tvar('M', "ma"), tvar('M', "mb"), tcon('M', "Mask.W", uint64(2)), tcon('M', "KM", uint64(3)), tvar('M', "n2.m"), tvar('M', "ms[0]"), tvar('M', "fm()"), tvar('M', "sm"), tcon('M', "SMask.X", uint64(0x80))}
	S := []*texpr{tvar('S', "s1"), tvar('S', "s2"), tcon('S', `"x"`, "x"), tcon('S', "KSTR", "kk"), tvar('S', "n2.s"), tvar('S', "cs[0]"), tvar('S', "fs()"), tvar('S', "ss"), tcon('S', `""`, "")}
	P := []*texpr{tvar('B', "p"), tcon('B', "KB", true), tcon('B', "false", false)}
	seen := map[string]bool{}
	var all []*texpr
	put := func(xs ...*texpr) {
		for _, x := range xs {
			if !seen[x.text] {
				seen[x.text] = true
				all = append(all, x)
			}
		}
	}
	put(E...)
	put(M...)
	put(S...)
	var E2, M2, S2 []*texpr
	for i, a := range E {
		for j, b := range E {
			x := tif(P[(i+j)%len(P)], a, b)
			E2 = append(E2, x)
			put(x, tbin("==", a, b, false), tbin("!=", a, b, false))
		}
		put(tvalue(a), tbin("+", tvalue(a), tcon('I', "1", int64(1)), false))
	}
	for i, x := range E2 {
		put(tbin("==", x, E[i%len(E)], false), tbin("!=", E[i%5], x, false), tvalue(x), tbin("+", tvalue(x), tcon('I', "7", int64(7)), false))
		put(tif(P[0], x, E[(i+1)%len(E)]), tif(tbin("==", E[0], E[i%len(E)], false), E[(i+3)%len(E)], x))
	}
	ops := []string{"&", "^", "|"}
	for i, a := range M {
		for j, b := range M {
			for _, op := range ops {
				M2 = append(M2, tbin(op, a, b, false))
			}
			M2 = append(M2, tif(P[(i+j)%len(P)], a, b))
			put(tbin("==", a, b, false), tbin("!=", a, b, false))
		}
		put(tvalue(a), tisset(a, "Mask.R", 1), tisset(a, "SMask.X", 0x80))
		put(tcall('I', "numbits", tvalue(a), func(v any) any { // bits needed for that many values
			if n := v.(int64); n > 1 {
				return int64(bits.Len64(uint64(n - 1)))
			} else {
				return n
			}
		}))
	}
	for i, a := range M {
		M2 = append(M2, tneg(a, 0xff), tneg(tneg(a, 0xff), 0xff), tbin("&", tneg(a, 0xff), M[(i+1)%len(M)], false), tbin("|", M[(i+2)%len(M)], tneg(a, 0xff), false), tneg(tbin("^", a, M[(i+3)%len(M)], false), 0xff))
	}
	put(M2...)
	// bitmasks whose type is narrower or wider than that
	for _, w := range []struct {
		xs   []*texpr
		mask uint64
		name string
	}{
		{[]*texpr{tvar('N', "nm"), tvar('N', "nn"), tcon('N', "Nib.C", uint64(4)), tcon('N', "KN", uint64(0x1e))}, 0x1f, "Nib.A"},
		{[]*texpr{tvar('W', "wm"), tcon('W', "Wide.C", uint64(4)), tcon('W', "KW", ^uint64(3))}, ^uint64(0), "Wide.A"},
		{[]*texpr{tvar('M', "ma"), tcon('M', "KX", uint64(0x7f))}, 0xff, "Mask.R"},
	} {
		var l []*texpr
		for i, a := range w.xs {
			l = append(l, a, tneg(a, w.mask), tneg(tneg(a, w.mask), w.mask))
			for j, b := range w.xs {
				for _, op := range ops {
					l = append(l, tbin(op, tneg(a, w.mask), b, false), tneg(tbin(op, a, b, true), w.mask))
				}
				l = append(l, tif(P[(i+j)%len(P)], tneg(a, w.mask), b))
			}
		}
		put(l...)
		for i, a := range l {
			put(tbin("==", a, l[(i+1)%len(l)], true), tbin("!=", w.xs[i%len(w.xs)], a, true), tisset(a, w.name, 1), tif(P[0], a, l[(i*3+1)%len(l)]))
			if w.mask != ^uint64(0) { // the values of constants are limited to int64
				put(tvalue(a))
			}
		}
	}
	for i, x := range M2 {
		put(tbin("==", x, M[i%len(M)], false), tbin("!=", M[i%4], x, false), tisset(x, "Mask.W", 2), tvalue(x))
		put(tif(P[0], x, M[i%len(M)]))
	}
	for _, l := range [][]*texpr{{M[0], M[1], M[3]}, {M[2], M[6], M[0]}, {M[4], M[0], M[8]}} {
		for _, f := range ops {
			for _, g := range ops {
				for _, full := range []bool{false, true} {
					put(tbin(f, tbin(g, l[0], l[1], full), l[2], full), tbin(f, l[0], tbin(g, l[1], l[2], full), full))
				}
			}
		}
	}
	for i, a := range S {
		for j, b := range S {
			S2 = append(S2, tbin("+", a, b, false), tif(P[(i+j)%len(P)], a, b))
			put(tbin("==", a, b, false), tbin("!=", a, b, false))
		}
	}
	put(S2...)
	for i, x := range S2 {
		c := S[i%len(S)]
		put(tbin("+", x, c, false), tbin("+", c, x, false), tbin("==", x, c, false), tbin("!=", c, x, false), tif(P[0], c, x))
	}
	B := []*texpr{P[0], tbin("==", E[0], E[2], false), tbin("!=", M[0], M[3], false), tbin("==", S[0], S[3], false), tisset(M[1], "Mask.R", 1), tbin("==", S[2], S[3], false), tbin("!=", E[3], E[2], false), tisset(M[3], "Mask.W", 2)}
	for i, a := range B {
		put(tnot(a))
		for j, b := range B {
			put(tbin("&&", a, b, false), tbin("||", a, b, false), tbin("==", a, b, true), tbin("!=", a, b, true))
			c := B[(i*3+j*5+1)%len(B)]
			put(tbin("||", tbin("&&", a, b, false), c, false), tbin("&&", a, tbin("||", b, c, false), false), tif(a, b, c))
			put(tif(a, E[i%len(E)], E[j%len(E)]), tif(tbin("&&", a, b, false), M[i%len(M)], M[j%len(M)]), tif(tbin("||", a, b, false), S[i%len(S)], S[j%len(S)]))
		}
	}
	ty := map[byte]string{'E': "Color", 'M': "Mask", 'N': "Nib", 'W': "Wide", 'S': "string", 'B': "bool", 'I': "int32"}
	const per = 500
	for k := 0; k*per < len(all); k++ {
		pkg := fmt.Sprintf("ext%d", k)
		var c, b strings.Builder
		for i := k * per; i < (k+1)*per && i < len(all); i++ {
			x := all[i]
			t := x.text
			ret := ty[x.k]
			if i%5 == 1 {
				ret = map[string]string{"Color": "SSColor", "Mask": "SMask", "string": "SStr"}[ret]
				if ret == "" {
					ret = ty[x.k]
				}
			}
			fmt.Fprintf(&b, "    function %s f%dx() { return %s; }\n", ret, i, t)
			items = append(items, &TypedEx{Text: t, Root: pkg + ".T", Fn: fmt.Sprintf("F%dx", i), Vars: x.vars, Eval: x.ev})
			if len(x.vars) == 0 {
				fmt.Fprintf(&c, "const %s Q%d = %s;\n", ret, i, t)
				n := fmt.Sprintf("%s.Q%d", pkg, i)
				s.Vals = append(s.Vals, RegVal{n, pkg, fmt.Sprintf("$.Q%d", i)})
				items = append(items, &TypedEx{Text: t, Val: n, Eval: x.ev})
			}
		}
		s.Files[pkg+".zs"] = "package " + pkg + ";\n" + c16tRaw + c.String() + "struct T\n{" + c16tFields + b.String() + "};\n"
		s.Extra = append(s.Extra, &Root{T: &Type{K: KStruct, Name: "T"}, Pkg: pkg, Name: pkg + ".T"})
	}
	// string literals: every escape sequence, alone and next to others
	type piece struct{ text, val string }
	ps := []piece{{"a", "a"}, {"é", "é"}, {"0", "0"}, {"'", "'"}, {"`", "`"}, {"$", "$"}, {"%", "%"}, {`\"`, `"`}, {`\\`, `\`}, {`\r`, "\r"}, {`\n`, "\n"}, {`\f`, "\f"}, {`\t`, "\t"},
		{`\u0041`, "A"}, {`\u00e9`, "é"}, {`\u20AC`, "€"}, {`\uffff`, "\uffff"}, {`\u0000`, "\x00"}, {`\x41`, "A"}, {`\xe9`, "é"}, {`\xFF`, "ÿ"}, {`\x00`, "\x00"}, {`\x80`, "\u0080"},
		{`\0101`, "A"}, {`\0377`, "ÿ"}, {`\0000`, "\x00"}, {`\0012`, "\n"}, {`\0047`, "'"}, {`\0134`, `\`}, {`\0042`, `"`}}
	short := []piece{{`\01`, "\x01"}, {`\07`, "\a"}, {`\012`, "\n"}, {`\077`, "?"}, {`\047`, "'"}}
	var c strings.Builder
	n := 0
	add := func(text, val string) {
		q := `"` + text + `"`
		fmt.Fprintf(&c, "const string Q%d = %s;\n", n, q)
		name := fmt.Sprintf("exs.Q%d", n)
		s.Vals = append(s.Vals, RegVal{name, "exs", fmt.Sprintf("$.Q%d", n)})
		items = append(items, &TypedEx{Text: q, Val: name, Eval: func(TEnv) any { return val }})
		n++
	}
	for _, a := range ps {
		add(a.text, a.val)
		for _, b := range ps {
			add(a.text+b.text, a.val+b.val)
		}
		for _, b := range short { // ends at what is not an octal digit
			add(a.text+b.text, a.val+b.val)
			add(b.text+"8"+a.text, b.val+"8"+a.val)
			add(b.text+b.text, b.val+b.val)
		}
	}
	s.Files["exs.zs"] = "package exs;\n" + c.String() + "struct Dummy\n{\n    uint8 x;\n};\n"
	s.Extra = append(s.Extra, &Root{T: &Type{K: KStruct, Name: "Dummy"}, Pkg: "exs", Name: "exs.Dummy"})
	return
}
