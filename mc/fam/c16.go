package fam

import (
	"fmt"
	"strings"

	"mc/ex"
	. "mc/zs"
)

func init() { families["C16"] = func(th bool) *Set { s, _, _ := C16(th); return s } }

// ExItem is an expression at a place where its value can be observed.
type ExItem struct {
	N    *ex.Node
	Text string
	Root string // registry key of the struct with the function, or ""
	Fn   string
	Val  string // key of a registered constant
	Enum bool   // Val is the list of an enum's values; the first counts, the second is its successor
}

func ivals(v ...int64) []ex.Val {
	var r []ex.Val
	for _, x := range v {
		r = append(r, ex.I(x))
	}
	return r
}

const exCommon = `
const int32 K5 = 5;
const int16 KN = -3;
subtype int32 SubI;
const SubI KS = K5 + 2;
const bool KB = true;
const float64 KG = 0.25;
const float32 KF = 4.0f;
const uint32 KU = 0xFFFFFFFF;
`

const exTypes = `
enum int8 Color { RED = 3, GREEN = -2, BLUE };
bitmask uint8 Mask { R = 1, W, X = 0x80 };
struct In2 { int16 r; };
struct In
{
    int16 q;
    int16 qq;
    In2 t;
    uint8 arr[];
    bool bb;
    function int16 gg() { return qq * 2; }
};
choice Ch(uint8 sel) on sel
{
    case 1: uint8 ca;
    default: int16 cb;
    function int32 hh() { return sel + 1000; }
};
`

const exFields = `
    int8 a; uint8 b; uint8 nb; int16 c; uint32 d; int64 e; uint64 u; varint32 v; varuint w; bit:5 x; int:7 y; varsize z; bit:64 bb;
    optional uint8 o;
    bool p0; bool p1; bool p2;
    float32 f; float64 g; float16 h;
    string s1;
    Color en; Mask ma; Color en2; Mask ma2; Color en3; Mask ma3;
    In n1;
    uint8 arr[]; int16 fix[3]; In ins[]; uint8 len0[];
    Ch(2) ch;
    int8 aa;
    function int16 fn0() { return aa * 100; }
    function bool fb() { return p2; }
`

// exLeaves are the atoms of functions of that struct.
func exLeaves() (ints, bools, floats []*ex.Leaf) {
	add := func(l *[]*ex.Leaf, t ex.Ty, text string, vals ...ex.Val) *ex.Leaf {
		x := &ex.Leaf{Text: text, T: t, Vals: vals, Var: true, Key: text}
		*l = append(*l, x)
		return x
	}
	i := func(text string, v ...int64) { add(&ints, ex.TI, text, ivals(v...)...) }
	i("a", -3, 0, 2, 127)
	i("b", 0, 1, 5, 200)
	i("e", -1<<40, 9)
	x := add(&ints, ex.TI, "u", ex.U(1<<64-1), ex.U(6))
	x.U64 = true
	i("c", -300, 7)
	i("d", 1<<32-1, 3)
	i("v", -70000, 1)
	x = add(&ints, ex.TI, "w", ex.U(1<<64-1), ex.U(4))
	x.U64 = true
	x = add(&ints, ex.TI, "bb", ex.U(1<<63), ex.U(1))
	x.U64 = true
	i("x", 31, 2)
	i("y", -64, 3)
	i("z", 65536, 0)
	i("o", 7, 255)
	i("p", 65535, 1)
	i("n1.q", -5, 4)
	i("n1.t.r", 300)
	i("arr[1]", 9, 250)
	i("fix[2]", -30000)
	i("ins[1].q", -2, 11)
	i("n1.arr[0]", 6, 255)
	i("lengthof(len0)", 0, 3)
	i("lengthof(fix)", 3)
	i("valueof(en3)", 3, -2, -1)
	i("valueof(ma3)", 0, 1, 130)
	i("fn0()", -300, 12700)
	i("n1.gg()", 66, -4000)
	i("ch.hh()", 1002)
	i("numbits(nb)", 0, 8)
	ints[len(ints)-1].Vals = ivals(0, 1, 3, 8)
	bl := func(text string) { add(&bools, ex.TB, text, ex.B(false), ex.B(true)) }
	bl("p0")
	bl("p1")
	bl("isset(ma, Mask.W)")
	bl("(en == Color.BLUE)")
	bl("(Mask.R == ma2)")
	bl("(en2 != Color.RED)")
	bl("fb()")
	bl("n1.bb")
	fl := func(text string, v ...ex.Val) { add(&floats, ex.TF, text, v...) }
	fl("f", ex.Fl(-0.25), ex.Fl(2), ex.Fl(16777216))
	fl("g", ex.Fl(0.5), ex.Fl(-4), ex.Fl(1.00000000001))
	floats[len(floats)-1].F64 = true
	fl("h", ex.Fl(0.5), ex.Fl(8))
	return
}

// exConsts are the constant atoms.
func exConsts() (ints, bools, floats []*ex.Leaf) {
	i := func(text string, v int64) { ints = append(ints, &ex.Leaf{Text: text, T: ex.TI, Vals: ivals(v)}) }
	i("7", 7)
	i("3", 3)
	i("0", 0)
	i("1", 1)
	i("0x1F", 31)
	i("017", 15)
	i("101b", 5)
	i("K5", 5)
	i("KN", -3)
	i("KS", 7)
	i("KU", 1<<32-1)
	i("FAR", 1000003)
	i("valueof(Color.BLUE)", -1)
	i("valueof(Mask.W)", 2)
	i("numbits(200)", 8)
	i("62", 62)
	i("9223372036854775807", 1<<63-1)
	b := func(text string, v bool) {
		bools = append(bools, &ex.Leaf{Text: text, T: ex.TB, Vals: []ex.Val{ex.B(v)}})
	}
	b("true", true)
	b("false", false)
	b("KB", true)
	b("(Color.RED == Color.BLUE)", false)
	b("isset(Mask.X, Mask.X)", true)
	f := func(text string, v float64) {
		floats = append(floats, &ex.Leaf{Text: text, T: ex.TF, Vals: []ex.Val{ex.Fl(v)}, F64: text != "2.0f" && text != "KF"})
	}
	f("0.5", 0.5)
	f("2.0f", 2)
	f("KG", 0.25)
	f("KF", 4)
	f("1e3", 1000)
	return
}

// Envs calls f with every assignment of the leaves of n.
func Envs(n *ex.Node, f func(env map[*ex.Leaf]ex.Val) bool) {
	var ls []*ex.Leaf
	seen := map[*ex.Leaf]bool{}
	n.Leaves(func(l *ex.Leaf) {
		if !seen[l] {
			seen[l] = true
			ls = append(ls, l)
		}
	})
	idx := make([]int, len(ls))
	for {
		env := map[*ex.Leaf]ex.Val{}
		for i, l := range ls {
			env[l] = l.Vals[idx[i]]
		}
		if !f(env) {
			return
		}
		i := 0
		for ; i < len(ls); i++ {
			if idx[i]++; idx[i] < len(ls[i].Vals) {
				break
			}
			idx[i] = 0
		}
		if i == len(ls) {
			return
		}
	}
}

// usable: every constant part has a value, and so has the whole for some input.
func usable(n *ex.Node) bool {
	isVar := false
	n.Leaves(func(l *ex.Leaf) { isVar = isVar || l.Var })
	if n.Leaf == nil {
		for _, a := range n.A {
			if !usable(a) {
				return false
			}
		}
		// Go refuses to divide by a constant zero
		if n.Op == "/" || n.Op == "%" {
			zero := true
			cv := false
			n.A[1].Leaves(func(l *ex.Leaf) { cv = cv || l.Var })
			if !cv {
				v, ok := n.A[1].Eval(func(l *ex.Leaf) ex.Val { return l.Vals[0] })
				zero = ok && (v.T == ex.TI && v.I.Sign() == 0 || v.T == ex.TF && v.F == 0)
				if zero {
					return false
				}
			}
		}
	}
	ok := false
	Envs(n, func(env map[*ex.Leaf]ex.Val) bool {
		_, k := n.Eval(func(l *ex.Leaf) ex.Val { return env[l] })
		ok = ok || k
		return !ok
	})
	return ok
}

// C16: expressions as function results over fields, folded, and as constants,
// enum and bitmask values, conditions, lengths, widths and arguments.
func C16(th bool) (*Set, []*ExItem, []*TypedEx) {
	s := NewSet()
	var items []*ExItem
	ints, bools, floats := exLeaves()
	ci, cb, cf := exConsts()
	s.Files["exfar.zs"] = "package exfar;\nconst uint32 FAR = 1000003;\n"
	s.Files["exc.zs"] = "package exc;\n" + exCommon + exTypes

	// --- run time
	seen := map[string]bool{}
	var nodes []*ex.Node
	put := func(n *ex.Node) {
		if n == nil || seen[n.Text()] || !usable(n) {
			return
		}
		seen[n.Text()] = true
		nodes = append(nodes, n)
	}
	lits := []*ex.Leaf{ci[1], ci[2], ci[4], ci[7], ci[8], ci[11]}
	all := append(append([]*ex.Leaf{}, ints...), lits...)
	core := map[*ex.Leaf]bool{ints[0]: true, ints[1]: true, ints[2]: true, ints[3]: true, lits[0]: true}
	for i, a := range all {
		for _, u := range append(ex.UnOps, "numbits") {
			put(ex.Mk(u, ex.L(a)))
		}
		put(ex.L(a))
		for j, b := range all {
			for k, op := range ex.All {
				if !th && !core[a] && !core[b] && k%5 != (i*7+j)%5 {
					continue
				}
				put(ex.Mk(op, ex.L(a), ex.L(b)))
			}
			put(ex.Mk("?", ex.L(bools[(i+j)%len(bools)]), ex.L(a), ex.L(b)))
		}
	}
	bl := append(append([]*ex.Leaf{}, bools...), cb[0], cb[2])
	ex.Depth1(bl, put)
	fl := append(append(append([]*ex.Leaf{}, floats...), cf...), ints[1], ints[3], ci[1])
	for _, a := range fl {
		put(ex.Mk("-", ex.L(a)))
		put(ex.L(a))
		for _, b := range fl {
			for _, op := range []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="} {
				put(ex.Mk(op, ex.L(a), ex.L(b)))
			}
			put(ex.Mk("?", ex.L(bools[0]), ex.L(a), ex.L(b)))
		}
	}
	trip := func(l ...*ex.Leaf) []*ex.Leaf { return l }
	triples := [][]*ex.Leaf{trip(ints[0], ints[1], ci[1]), trip(ints[1], ci[1], ints[0]), trip(ints[3], ints[1], ci[1]), trip(bools[0], bools[1], bools[2]), trip(ci[1], ints[9], ints[1])}
	ex.Depth2(triples, put)
	ops3 := ex.Classes
	if th {
		ops3 = ex.All
		ex.Depth2([][]*ex.Leaf{trip(ints[2], ints[5], ints[1]), trip(ints[24], ints[21], ints[14]), trip(ints[22], ints[23], ints[13])}, put)
	}
	f, g, h := floats[0], floats[1], floats[2]
	ex.Depth2([][]*ex.Leaf{trip(f, g, h), trip(g, h, f), trip(h, f, g), trip(f, g, f), trip(g, f, g), trip(f, f, g), trip(f, cf[0], h), trip(f, cf[1], g), trip(h, f, cf[2]), trip(f, h, cf[3])}, put)
	ex.Depth3(trip(ints[0], ints[1], ci[1], ints[9]), ops3, put)
	ex.Depth3(trip(bools[0], bools[1], bools[2], bools[6]), []string{"&&", "||", "==", "!="}, put)

	const per = 600
	for k := 0; k*per < len(nodes); k++ {
		pkg := fmt.Sprintf("exf%d", k)
		name := "F"
		var b strings.Builder
		fmt.Fprintf(&b, "package %s;\nimport exfar.*;\n%s%s\nstruct %s(uint16 p)\n{%s", pkg, exCommon, exTypes, name, exFields)
		for i := k * per; i < (k+1)*per && i < len(nodes); i++ {
			n := nodes[i]
			t := n.Text()
			if i%3 == 0 {
				t = n.Full()
			}
			ret := retType(n)
			fmt.Fprintf(&b, "    function %s f%dx() { return %s; }\n", ret, i, t)
			items = append(items, &ExItem{N: n, Text: t, Root: pkg + "." + name, Fn: fmt.Sprintf("F%dx", i)})
		}
		b.WriteString("};\n")
		s.Files[pkg+".zs"] = b.String()
		s.Extra = append(s.Extra, &Root{T: &Type{K: KStruct, Name: name}, Pkg: pkg, Name: pkg + "." + name})
	}

	// --- folded
	nodes = nil
	seen = map[string]bool{}
	ex.Depth1(ci, put)
	ex.Depth1(cb, put)
	for _, a := range cf {
		put(ex.L(a))
		put(ex.Mk("-", ex.L(a)))
		for _, b := range append(append([]*ex.Leaf{}, cf...), ci[1], ci[7]) {
			for _, op := range []string{"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="} {
				put(ex.Mk(op, ex.L(a), ex.L(b)))
				put(ex.Mk(op, ex.L(b), ex.L(a)))
			}
			put(ex.Mk("?", ex.L(cb[0]), ex.L(a), ex.L(b)))
			put(ex.Mk("?", ex.L(cb[1]), ex.L(a), ex.L(b)))
		}
	}
	one := len(nodes)
	ctr := [][]*ex.Leaf{trip(ci[0], ci[1], ci[7]), trip(ci[8], ci[4], ci[3]), trip(cb[0], cb[1], cb[2]), trip(ci[10], ci[13], ci[6])}
	ex.Depth2(ctr, put)
	two := len(nodes)
	ex.Depth3(trip(ci[0], ci[1], ci[3], ci[7]), ops3, put)
	ex.Depth3(trip(cb[0], cb[1], cb[2], cb[1]), []string{"&&", "||", "==", "!="}, put)
	for k := 0; k*per < len(nodes); k++ {
		pkg := fmt.Sprintf("exg%d", k)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s;\nimport exfar.*;\n%s%s\nstruct F\n{\n    uint8 dummy;\n", pkg, exCommon, exTypes)
		for i := k * per; i < (k+1)*per && i < len(nodes); i++ {
			n := nodes[i]
			t := n.Text()
			if i%3 == 0 {
				t = n.Full()
			}
			fmt.Fprintf(&b, "    function %s f%dx() { return %s; }\n", retType(n), i, t)
			items = append(items, &ExItem{N: n, Text: t, Root: pkg + ".F", Fn: fmt.Sprintf("F%dx", i)})
		}
		b.WriteString("};\n")
		s.Files[pkg+".zs"] = b.String()
		s.Extra = append(s.Extra, &Root{T: &Type{K: KStruct, Name: "F"}, Pkg: pkg, Name: pkg + ".F"})
	}
	// constants and values of enums and bitmasks
	var cs strings.Builder
	fmt.Fprintf(&cs, "package exk;\nimport exfar.FAR;\n%s%s\n", exCommon, exTypes)
	reg := func(name, expr string) string {
		s.Vals = append(s.Vals, RegVal{"exk." + name, "exk", expr})
		return "exk." + name
	}
	pickN := func(i int) bool {
		return th || i < one && i%3 == 0 || i >= one && i < two && i%4 == 0 || i >= two && i%16 == 0
	}
	for i, n := range nodes {
		if !pickN(i) {
			continue
		}
		v, _ := n.Eval(func(l *ex.Leaf) ex.Val { return l.Vals[0] })
		ty := retType(n)
		if n.T == ex.TI {
			ty = narrow(v.I.Int64(), i)
		}
		fmt.Fprintf(&cs, "const %s Q%d = %s;\n", ty, i, n.Text())
		items = append(items, &ExItem{N: n, Text: n.Text(), Val: reg(fmt.Sprintf("Q%d", i), fmt.Sprintf("$.Q%d", i))})
		if n.T == ex.TI && i%2 == 0 && v.I.Int64() < 1<<62 {
			fmt.Fprintf(&cs, "enum %s EQ%d { V = %s, NEXT };\n", narrow(wide(v.I.Int64()), 1), i, n.Text())
			items = append(items, &ExItem{N: n, Text: n.Text(), Enum: true, Val: reg(fmt.Sprintf("E%d", i), fmt.Sprintf("$.EQ%dValues()", i))})
		}
		if n.T == ex.TI && i%2 == 1 && v.I.Sign() > 0 {
			fmt.Fprintf(&cs, "bitmask %s MQ%d { V = %s };\n", "uint64", i, n.Text())
			items = append(items, &ExItem{N: n, Text: n.Text(), Val: reg(fmt.Sprintf("M%d", i), fmt.Sprintf("$.MQ%dV", i))})
		}
	}
	for i, c := range exStrings {
		fmt.Fprintf(&cs, "const string S%d = %s;\n", i, c[0])
		items = append(items, &ExItem{N: ex.L(&ex.Leaf{Text: c[0], T: ex.TS, Vals: []ex.Val{ex.S(c[1])}}), Text: c[0], Val: reg(fmt.Sprintf("S%d", i), fmt.Sprintf("$.S%d", i))})
	}
	s.Files["exk.zs"] = cs.String()
	c16contexts(s, th)
	return s, items, c16typed(s, th)
}

var exStrings = [][2]string{
	{`"abc"`, "abc"},
	{`""`, ""},
	{`"ab" + "cd"`, "abcd"},
	{`"ab" + "" + "c" + S0`, "abcabc"},
	{`"q\"q"`, `q"q`},
	{`"b\\b"`, `b\b`},
	{`"t\tn\nr\r"`, "t\tn\nr\r"},
	{`"\x41\u0042"`, "AB"},
	{`"\xe9\u20ac"`, "é€"},
	{`"ä€"`, "ä€"},
	{`true ? "yes" : "no"`, "yes"},
	{`K5 > 9 ? "yes" : "no"`, "no"},
	{`"a // b /* c */"`, "a // b /* c */"},
	{`"%d %s %%"`, "%d %s %%"},
}

func retType(n *ex.Node) string {
	switch n.T {
	case ex.TB:
		return "bool"
	case ex.TF:
		return "float64"
	case ex.TS:
		return "string"
	}
	if n.U64() {
		return "uint64"
	}
	return "int64"
}

// narrow names a type for a value; k rotates through those that hold it.
// wide returns the one of v and v+1 that needs the wider type.
func wide(v int64) int64 {
	if v < 0 {
		return v
	}
	return v + 1
}

func narrow(v int64, k int) string {
	var ok []string
	for _, b := range []int{8, 16, 32} {
		if v >= -1<<(b-1) && v < 1<<(b-1) {
			ok = append(ok, fmt.Sprintf("int%d", b))
		}
		if v >= 0 && v < 1<<b {
			ok = append(ok, fmt.Sprintf("uint%d", b))
		}
	}
	ok = append(ok, "int64")
	if v >= 0 {
		ok = append(ok, "uint64")
	}
	if v >= 0 && v < 1<<20 {
		ok = append(ok, "bit:20", "varuint32")
	}
	return ok[k%len(ok)]
}

// zsExpr turns a tree over x and y into an expression of the format model.
func zsExpr(n *ex.Node, full bool) *Expr {
	t := n.Text()
	if full {
		t = n.Full()
	}
	return Ex(t, func(e *Env) int64 {
		v, ok := n.Eval(func(l *ex.Leaf) ex.Val {
			if !l.Var {
				return l.Vals[0]
			}
			return ex.I(e.Get(l.Text))
		})
		if !ok {
			panic("undefined expression " + t)
		}
		if v.T == ex.TB {
			return b2i(v.B)
		}
		return v.I.Int64()
	})
}

func c16contexts(s *Set, th bool) {
	small := ivals(0, 1, 2, 3)
	x := &ex.Leaf{Text: "x", T: ex.TI, Vals: small, Var: true}
	y := &ex.Leaf{Text: "y", T: ex.TI, Vals: small, Var: true}
	three := &ex.Leaf{Text: "3", T: ex.TI, Vals: ivals(3)}
	k5 := &ex.Leaf{Text: "K5", T: ex.TI, Vals: ivals(5)}
	var bs, is []*ex.Node
	seen := map[string]bool{}
	put := func(n *ex.Node) {
		if seen[n.Text()] {
			return
		}
		seen[n.Text()] = true
		ok := true
		Envs(n, func(env map[*ex.Leaf]ex.Val) bool {
			_, ok = n.Eval(func(l *ex.Leaf) ex.Val { return env[l] })
			return ok
		})
		if !ok {
			return
		}
		if n.T == ex.TB {
			bs = append(bs, n)
		} else {
			is = append(is, n)
		}
	}
	ex.Depth1([]*ex.Leaf{x, y, three, k5}, put)
	ex.Depth2([][]*ex.Leaf{{x, y, three}, {three, x, k5}, {k5, y, x}}, put)
	if th {
		ex.Depth3([]*ex.Leaf{x, three, y, k5}, ex.Classes, put)
	} else {
		ex.Depth3([]*ex.Leaf{x, three, y, k5}, []string{"*", "-", "<", "==", "&", "||"}, put)
	}
	ch := s.Chunk("exz", 8)
	var ps *Type
	ch.Setup = func(b *B) {
		b.S.Raw = "const int32 K5 = 5;\n"
		ps = b.PStruct([]Param{{"q", SInt(64)}}, F("m", BitDyn(Ex("(q & 7) + 1", func(e *Env) int64 { return e.Get("q")&7 + 1 })).With(Int(1))))
	}
	lead := func() []*Field {
		return []*Field{F("x", Bit(2).With(Int(0), Int(1), Int(2), Int(3))), F("y", Bit(2).With(Int(0), Int(1), Int(2), Int(3)))}
	}
	const per = 24
	group := func(l []*ex.Node, what string, mk func(b *B, i int, n *ex.Node) *Field) {
		for i := 0; i < len(l); i += per {
			b := ch.B()
			fs := lead()
			for k := i; k < i+per && k < len(l); k++ {
				fs = append(fs, mk(b, k-i, l[k]))
			}
			r := b.Root(b.Struct(fs...), fmt.Sprintf("%s %d", what, i))
			r.Max = 40
		}
	}
	nm := func(i int) string { return fmt.Sprintf("e%d", i) }
	one := Bit(1).With(Int(1))
	group(bs, "conditions", func(b *B, i int, n *ex.Node) *Field {
		f := F(nm(i), one)
		f.Cond = zsExpr(n, i%2 == 1)
		return f
	})
	group(is, "lengths", func(b *B, i int, n *ex.Node) *Field {
		f := F(nm(i), one)
		f.Arr = &Arr{Len: zsExpr(ex.Mk("&", n, ex.L(three)), i%2 == 1)}
		return f
	})
	group(is, "widths", func(b *B, i int, n *ex.Node) *Field {
		e := ex.Mk("+", ex.Mk("&", n, ex.L(&ex.Leaf{Text: "7", T: ex.TI, Vals: ivals(7)})), ex.L(&ex.Leaf{Text: "1", T: ex.TI, Vals: ivals(1)}))
		return F(nm(i), BitDyn(zsExpr(e, i%2 == 1)).With(Int(1)))
	})
	group(is, "arguments", func(b *B, i int, n *ex.Node) *Field {
		f := F(nm(i), ps)
		f.Args = []*Expr{zsExpr(n, i%2 == 1)}
		return f
	})
}
