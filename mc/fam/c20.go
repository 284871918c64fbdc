package fam

import (
	"fmt"
	"sort"
	"strings"

	. "mc/zs"
)

func init() { families["C20"] = C20 }

// ref is the type written in another way.
func ref(t *Type, text string) *Type {
	c := *t
	c.Text = text
	return &c
}

// lib is a package of definitions; libraries of the same names differ in
// widths, lengths and values, so that a reference to the wrong one shows.
type lib struct {
	pkg string
	v   int
	lk  int64
	t   map[string]*Type
}

func lfield(name string, t *Type, m ...func(f *Field)) *Field {
	f := F(name, t)
	for _, x := range m {
		x(f)
	}
	return f
}
func opt(f *Field)                  { f.Opt = true }
func auto(f *Field)                 { f.Arr = &Arr{} }
func packd(f *Field)                { f.Arr = &Arr{Packed: true} }
func length(e *Expr) func(f *Field) { return func(f *Field) { f.Arr = &Arr{Len: e} } }
func args(e ...*Expr) func(f *Field) {
	return func(f *Field) { f.Args = e }
}
func cnst(text string, v int64) *Expr { return Ex(text, func(*Env) int64 { return v }) }

// libRaw is the part of a library written as it is.
func libText(v int) string {
	return strings.NewReplacer("$1", fmt.Sprint(1+v), "$2", fmt.Sprint(2+v), "$3", fmt.Sprint(3+v), "$4", fmt.Sprint(4+v)).Replace(`const uint8 LK = $3;
const uint8 LK2 = LK + 1;
subtype bit:$4 LBits;
subtype LBits LBits2;
enum bit:4 LE { LA = $1, LB, LC = 9 };
bitmask uint8 LM { LR, LW, LX = 64 };
struct LS
{
    bit:$3 p;
    int16 q;
    LE e;
};
union LU
{
    uint16 n;
    LS s;
    LBits2 b;
};
choice LCh(uint8 k) on k
{
    case LK:
        uint8 a;
    case 1:
        LS s;
    default:
        bit:$2 c;
};
struct LPS(uint8 k)
{
    bit<k> x;
    bit:2 arr[LK];
    bit:3 brr[lf()];
    function uint8 lf() { return LK - 2; }
};
subtype LS LSSub;
subtype LE LESub;
struct LT<T>
{
    bit:$1 h;
    T t;
    T ts[];
    LE e;
};
struct LTC2<T>
{
    LE e;
    T t;
    bit:2 a[LK];
    uint8 b if e == LE.LB;
};
choice LTCh<T>(uint8 k) on k
{
    case LK:
        T a;
    default:
        LS s;
};
union LTU<T>
{
    T a;
    LS s;
};
struct LTN<T>
{
    LT<T> a;
    LTP<T>(2) b;
};
struct LTP<T>(uint8 k)
{
    bit<k> x;
    T y;
};
instantiate LT<bit:$3> LInst;
`)
}

func newLib(s *Set, pkg string, v int) *lib {
	if s != nil {
		s.Files[strings.ReplaceAll(pkg, ".", "_")+".zs"] = "package " + pkg + ";\n" + libText(v)
	}
	l := &lib{pkg: pkg, v: v, lk: int64(3 + v), t: map[string]*Type{}}
	add := func(n string, t *Type) *Type {
		c := *t
		if !c.Declared() || c.Name == "" {
			c.Name = n
		}
		c.Text, c.Pkg = n, pkg
		l.t[n] = &c
		return &c
	}
	add("LBits", Bit(4+v))
	add("LBits2", Bit(4+v))
	a := int64(1 + v)
	le := add("LE", &Type{K: KEnum, Base: Bit(4), Items: []Item{{"LA", "", a}, {"LB", "", a + 1}, {"LC", "", 9}}})
	add("LM", &Type{K: KBitmask, Base: UInt(8), Items: []Item{{"LR", "", 1}, {"LW", "", 2}, {"LX", "", 64}}})
	ls := add("LS", &Type{K: KStruct, Fields: []*Field{F("p", Bit(3+v)), F("q", SInt(16)), F("e", le)}})
	add("LU", &Type{K: KUnion, Fields: []*Field{F("n", UInt(16)), F("s", ls), F("b", Bit(4+v))}})
	k := []Param{{Name: "k", T: UInt(8)}}
	add("LCh", &Type{K: KChoice, Params: k, Sel: Name("k"), HasDef: true, Def: 2, Fields: []*Field{F("a", UInt(8)), F("s", ls), F("c", Bit(2+v))},
		Cases: []Case{{Labels: []string{"LK"}, Vals: []int64{l.lk}, Field: 0}, {Labels: []string{"1"}, Vals: []int64{1}, Field: 1}}})
	add("LPS", &Type{K: KStruct, Params: k, Fields: []*Field{F("x", BitDyn(Name("k"))), lfield("arr", Bit(2), length(cnst("LK", l.lk))), lfield("brr", Bit(3), length(cnst("lf()", l.lk-2)))}})
	add("LSSub", ls)
	add("LESub", le)
	l.t["LInst"] = l.inst("LInst", "LT", Bit(3+v))
	return l
}

// inst is a type made from a template of the library.
func (l *lib) inst(text, tpl string, t *Type) *Type {
	k := []Param{{Name: "k", T: UInt(8)}}
	r := &Type{K: KStruct, Name: tpl, Pkg: l.pkg, Text: text}
	switch tpl {
	case "LT":
		r.Fields = []*Field{F("h", Bit(1+l.v)), F("t", t), lfield("ts", t, auto), F("e", l.t["LE"])}
	case "LTC2":
		lb := int64(2 + l.v)
		r.Fields = []*Field{F("e", l.t["LE"]), F("t", t), lfield("a", Bit(2), length(cnst("LK", l.lk))),
			lfield("b", UInt(8), func(f *Field) { f.Cond = Ex("e == LE.LB", func(e *Env) int64 { return b2i(e.Get("e") == lb) }) })}
	case "LTCh":
		r.K, r.Params, r.Sel, r.HasDef, r.Def = KChoice, k, Name("k"), true, 1
		r.Fields = []*Field{F("a", t), F("s", l.t["LS"])}
		r.Cases = []Case{{Labels: []string{"LK"}, Vals: []int64{l.lk}, Field: 0}}
	case "LTU":
		r.K = KUnion
		r.Fields = []*Field{F("a", t), F("s", l.t["LS"])}
	case "LTN":
		r.Fields = []*Field{F("a", l.inst("", "LT", t)), lfield("b", l.inst("", "LTP", t), args(Lit(2)))}
	case "LTP":
		r.Params = k
		r.Fields = []*Field{F("x", BitDyn(Name("k"))), F("y", t)}
	default:
		panic(tpl)
	}
	return r
}

func needsArg(t *Type) bool { return len(t.Params) > 0 }

// uses declares structs that use a type in every place.
func uses(b *B, t *Type, desc string, full bool) {
	n := func() *Field { return F("n", UInt(8).With(Int(1), Int(3), Int(4), Int(5), Int(6))) }
	mk := func(name string, m ...func(f *Field)) *Field {
		f := lfield(name, t, m...)
		if needsArg(t) {
			f.Args = []*Expr{Name("n")}
		}
		return f
	}
	root := func(d string, f ...*Field) {
		if needsArg(t) {
			f = append([]*Field{n()}, f...)
		}
		r := b.Root(b.Struct(f...), desc+" "+d)
		r.Lim.MaxLen, r.Lim.LenFirst = 2, 1
		r.Max = 60
	}
	root("field", F("a", Bit(1)), mk("x"), F("z", Bit(2)))
	if !full {
		return
	}
	root("mixed", mk("x", opt), mk("y", auto), mk("w", length(cnst("1 + 1", 2))), lfield("z", Bit(1)))
	root("packed", mk("x", packd), mk("y", func(f *Field) { f.Align = 8 }))
	if !needsArg(t) {
		root("union", F("u", b.Union(F("j", UInt(8)), mk("x"), mk("y", auto))))
		in := b.Struct(mk("x"), F("z", Bit(2)))
		root("nested", F("i", in), lfield("j", in, packd))
	} else {
		in := b.PStruct([]Param{{"n", UInt(8)}}, mk("x"), F("z", Bit(2)))
		root("nested", lfield("i", in, args(Name("n"))), lfield("j", in, args(Name("n")), packd))
	}
	ch := b.Choice([]Param{{"n", UInt(8)}}, Name("n"), []Case{{[]string{"3", "4"}, []int64{3, 4}, 0}}, 1, true, mk("x"), F("c", Bit(3)))
	if needsArg(t) {
		root("choice", lfield("c", ch, args(Name("n"))))
	} else {
		root("choice", n(), lfield("c", ch, args(Name("n"))))
	}
}

var libNames = []string{"LBits", "LBits2", "LE", "LM", "LS", "LU", "LCh", "LPS", "LSSub", "LESub", "LInst"}
var libTpls = []string{"LT", "LTC2", "LTCh", "LTU", "LTN", "LTP"}

// C20: indirections.
func C20(th bool) *Set {
	s := NewSet()
	n := 0
	pkg := func(raw string, imports ...string) *B {
		n++
		b := s.Pkg(fmt.Sprintf("in%d", n))
		b.S.Imports = imports
		b.S.Raw = raw
		return b
	}
	libs := []*lib{newLib(s, "liba", 0), newLib(s, "deep.lib.one", 1), newLib(s, "deep.lib.two", 2)}
	all := append([]string{"LK", "LK2"}, libNames...)
	all = append(all, libTpls...)

	// every symbol of a library in every style of import
	for _, l := range libs {
		var singles []string
		for _, x := range all {
			singles = append(singles, l.pkg+"."+x)
		}
		for _, st := range []struct {
			name, pre string
			imp       []string
		}{{"all", "", []string{l.pkg + ".*"}}, {"singles", "", singles}, {"qualified", l.pkg + ".", []string{l.pkg + ".*"}}} {
			b := pkg("", st.imp...)
			d := st.name + " " + l.pkg + " "
			for _, x := range libNames {
				uses(b, ref(l.t[x], st.pre+x), d+x, l == libs[1] || th)
				b.S.Raw += fmt.Sprintf("subtype %s Loc%s;\n", st.pre+x, x)
				uses(b, ref(l.t[x], "Loc"+x), d+"subtype of "+x, th)
			}
			for i, a := range []*Type{UInt(8), Bit(3), Bit(5), ref(l.t["LS"], st.pre+"LS"), ref(l.t["LESub"], st.pre+"LESub"), b.StdStruct(), b.StdEnum(), String()} {
				for j, x := range libTpls {
					uses(b, l.inst(fmt.Sprintf("%s%s<%s>", st.pre, x, a.Text), x, a), d+x+" of "+a.Text, th || (i*7+j)%5 == 0)
				}
			}
			if st.pre == "" {
				consts(b, d, []cst{{"LK", l.lk}, {"LK2", l.lk + 1}, {"LK * 2 - LK2", l.lk - 1}, {"valueof(LE.LB)", int64(2 + l.v)}, {"valueof(LESub.LB)", int64(2 + l.v)}})
			}
		}
		// one symbol at a time, everything else unknown
		for _, x := range all {
			b := pkg("", l.pkg+"."+x)
			d := "only " + l.pkg + "." + x
			switch {
			case x == "LK" || x == "LK2":
				consts(b, d, []cst{{x, l.lk + b2i(x == "LK2")}})
			case l.t[x] != nil:
				uses(b, l.t[x], d, false)
			default:
				uses(b, l.inst(x+"<uint16>", x, UInt(16)), d, false)
			}
		}
	}

	// the same names in several packages
	local := newLib(nil, "", 3)
	{
		b := pkg(libText(3), "liba.*", "deep.lib.one.*")
		for _, x := range libNames {
			var fs []*Field
			for i, y := range []*Type{local.t[x], ref(libs[0].t[x], "liba."+x), ref(libs[1].t[x], "deep.lib.one."+x)} {
				uses(b, y, "same names "+y.Text, th || i == 0)
				f := F(string(rune('a'+i)), y)
				if needsArg(y) {
					f.Args = []*Expr{Lit(4)}
				}
				fs = append(fs, f)
			}
			b.Root(b.Struct(fs...), "same names side by side "+x).Max = 60
		}
		consts(b, "same names ", []cst{{"LK", local.lk}, {"LK2", local.lk + 1}, {"valueof(LE.LB)", 5}, {"valueof(LESub.LB)", 5}})
		for i, tl := range []*lib{local, libs[0], libs[1]} {
			pre := []string{"", "liba.", "deep.lib.one."}[i]
			for _, x := range []string{"LT", "LTU", "LTC2", "LTN"} {
				var fs []*Field
				for j, a := range []*Type{local.t["LS"], ref(libs[0].t["LS"], "liba.LS"), ref(libs[1].t["LS"], "deep.lib.one.LS"), ref(libs[0].t["LESub"], "liba.LESub"), local.t["LESub"]} {
					y := tl.inst(fmt.Sprintf("%s%s<%s>", pre, x, a.Text), x, a)
					fs = append(fs, F(string(rune('a'+j)), y))
					uses(b, y, "same names "+y.Text, false)
				}
				b.Root(b.Struct(fs...), "same names side by side "+pre+x).Max = 60
			}
		}
	}
	// single imports choose between packages
	for i, x := range libNames {
		if x == "LInst" {
			continue
		}
		a, c := libs[i%3], libs[(i+1)%3]
		y := libNames[(i+1)%(len(libNames)-1)]
		b := pkg("", a.pkg+"."+x, c.pkg+"."+y)
		uses(b, a.t[x], "single "+a.pkg+"."+x, false)
		uses(b, c.t[y], "single "+c.pkg+"."+y, false)
		b = pkg("", c.pkg+"."+y, a.pkg+"."+x, c.pkg+".LK2")
		uses(b, a.t[x], "single "+a.pkg+"."+x, false)
		uses(b, c.t[y], "single "+c.pkg+"."+y, false)
		consts(b, "single LK2 ", []cst{{"LK2", c.lk + 1}})
	}
	transitive(s, pkg, libs, th)
	scopes(pkg, th)
	subtypes(s, libs, th)
	templates(pkg, libs, th)
	return s
}

type cst struct {
	text string
	v    int64
}

// consts declares structs with a constant in every place.
func consts(b *B, d string, cs []cst) {
	for _, c := range cs {
		e := cnst(c.text, c.v)
		root := func(w string, f ...*Field) {
			r := b.Root(b.Struct(f...), fmt.Sprintf("%s constant %s %s", d, c.text, w))
			r.Max = 60
		}
		root("as length", lfield("x", Bit(3).With(Int(5)), length(e)), F("z", Bit(2)))
		root("as width", F("x", ref(Bit(int(c.v)), "bit<"+c.text+">")), F("z", Bit(2)))
		root("as condition", F("n", UInt(8).With(Int(0), Int(c.v-1), Int(c.v), Int(c.v+1))), lfield("x", Bit(3), func(f *Field) {
			f.Cond = Ex("n == "+c.text, func(e *Env) int64 { return b2i(e.Get("n") == c.v) })
		}))
		ps := b.PStruct([]Param{{"k", UInt(8)}}, F("x", BitDyn(Name("k"))))
		root("as argument", lfield("x", ps, args(e)), F("z", Bit(2)))
		if !strings.Contains(c.text, "valueof") && !strings.Contains(c.text, "*") {
			ch := b.Choice([]Param{{"k", UInt(8)}}, Name("k"), []Case{{[]string{c.text}, []int64{c.v}, 0}}, 1, true, F("a", Bit(3)), F("b", Bit(5)))
			root("as label", F("n", UInt(8).With(Int(0), Int(c.v-1), Int(c.v), Int(c.v+1))), lfield("x", ch, args(Name("n"))))
		}
		en := b.Enum(UInt(8), Item{"P", c.text, c.v}, Item{"Q", "", c.v + 1})
		root("as item", F("x", en))
		nm := b.name("KC")
		b.S.Raw += fmt.Sprintf("const uint16 %s = %s;\n", nm, c.text)
		root("through a constant", lfield("x", Bit(3).With(Int(5)), length(cnst(nm, c.v))))
		fn := b.Struct(lfield("x", Bit(3).With(Int(5)), length(cnst("fn()", c.v))))
		fn.Funcs = []Func{{"uint16", "fn", c.text}}
		b.Root(fn, fmt.Sprintf("%s constant %s in a function", d, c.text))
	}
}

// transitive: what an imported definition refers to is not imported.
func transitive(s *Set, pkg func(raw string, imports ...string) *B, libs []*lib, th bool) {
	for i, l := range libs {
		other := libs[(i+1)%3]
		var single []string
		for _, x := range []string{"LS", "LE", "LK", "LK2", "LCh", "LPS", "LU", "LBits2", "LT", "LTN"} {
			single = append(single, l.pkg+"."+x)
		}
		for j, imp := range [][]string{{l.pkg + ".*"}, single} {
			mid := fmt.Sprintf("mid.m%d%d", i, j)
			head := "package " + mid + ";\n"
			for _, x := range imp {
				head += "import " + x + ";\n"
			}
			s.Files[strings.ReplaceAll(mid, ".", "_")+".zs"] = head + `
subtype LS MSub;
subtype MSub MSub2;
subtype LE MESub;
subtype LBits2 MBits;
const uint8 MK = LK + 1;
const uint8 MV = valueof(LE.LB);
struct MS { LS a; LE b; bit:2 c[LK]; LU u; };
struct MC(uint8 k) { LCh(k) ch; LPS(k) ps; LCh(LK) x; };
struct MI { LT<LS> a; LTN<bit:3> b; };
struct MT<T> { T t; LS s; T ts[]; };
instantiate MT<LS> MInst;
`
			b := pkg("", mid+".*")
			b2 := pkg("", mid+".*", other.pkg+".*")
			bs := []*B{b, b2}
			if th {
				bs = append(bs, pkg("", other.pkg+".*", mid+".*"))
			}
			at := func(text string, t *Type) *Type {
				c := *t
				c.Text, c.Pkg = text, mid
				return &c
			}
			k := []Param{{Name: "k", T: UInt(8)}}
			ms := &Type{K: KStruct, Name: "MS", Fields: []*Field{F("a", l.t["LS"]), F("b", l.t["LE"]), lfield("c", Bit(2), length(cnst("LK", l.lk))), F("u", l.t["LU"])}}
			mc := &Type{K: KStruct, Name: "MC", Params: k, Fields: []*Field{lfield("ch", l.t["LCh"], args(Name("k"))), lfield("ps", l.t["LPS"], args(Name("k"))), lfield("x", l.t["LCh"], args(cnst("LK", l.lk)))}}
			mi := &Type{K: KStruct, Name: "MI", Fields: []*Field{F("a", l.inst("", "LT", l.t["LS"])), F("b", l.inst("", "LTN", Bit(3)))}}
			mt := func(text string, a *Type) *Type {
				return at(text, &Type{K: KStruct, Name: "MT", Fields: []*Field{F("t", a), F("s", l.t["LS"]), lfield("ts", a, auto)}})
			}
			for _, b := range bs {
				d := "through " + mid + " "
				for _, t := range []*Type{at("MSub", l.t["LS"]), at("MSub2", l.t["LS"]), at("MESub", l.t["LE"]), at("MBits", l.t["LBits"]), at("MS", ms), at("MC", mc), at("MI", mi),
					mt("MT<uint8>", UInt(8)), mt("MT<MSub2>", l.t["LS"]), mt("MT<MESub>", l.t["LE"]), mt("MT<MBits>", l.t["LBits"]), mt("MInst", l.t["LS"])} {
					uses(b, t, d+t.Text, th || i == 0 && j == 0)
				}
				consts(b, d, []cst{{"MK", l.lk + 1}, {"MV", int64(2 + l.v)}, {"valueof(MESub.LB)", int64(2 + l.v)}})
			}
		}
	}
	// packages that import each other
	s.Files["cyc_a.zs"] = "package cyc.a;\nimport cyc.b.*;\nconst uint8 CA = 3;\nsubtype bit:5 CSub;\nstruct CS { bit:2 x[CB]; CE e; };\nstruct CT<T> { T t; CE e; };\n"
	s.Files["cyc_b.zs"] = "package cyc.b;\nimport cyc.a.*;\nconst uint8 CB = 2;\nconst uint8 CB2 = CA + CB;\nenum bit:3 CE { A, B = 4 };\n"
	b := pkg("", "cyc.a.*", "cyc.b.*")
	ce := &Type{K: KEnum, Name: "CE", Text: "CE", Pkg: "cyc.b", Base: Bit(3), Items: []Item{{"A", "", 0}, {"B", "", 4}}}
	cs := &Type{K: KStruct, Name: "CS", Text: "CS", Pkg: "cyc.a", Fields: []*Field{lfield("x", Bit(2), length(cnst("CB", 2))), F("e", ce)}}
	uses(b, cs, "importing each other CS", true)
	uses(b, &Type{K: KStruct, Name: "CT", Text: "CT<CSub>", Fields: []*Field{F("t", Bit(5)), F("e", ce)}}, "importing each other CT", true)
	consts(b, "importing each other ", []cst{{"CB2", 5}, {"CA", 3}})
}

// scopes: a name means the innermost definition.
func scopes(pkg func(raw string, imports ...string) *B, th bool) {
	b := pkg("const uint8 KX = 6;\nconst uint8 n = 7;\nsubtype uint8 SX;\n", "liba.*")
	// fields, parameters and functions with the names of constants
	root := func(d string, f ...*Field) *Type {
		t := b.Struct(f...)
		b.Root(t, "scope "+d).Max = 60
		return t
	}
	small := func(n string) *Field { return F(n, UInt(8).With(Int(0), Int(2), Int(3))) }
	for _, c := range []string{"KX", "n", "LK", "LB"} {
		c := c
		gt := Ex(c+" > 2", func(e *Env) int64 { return b2i(e.Get(c) > 2) })
		root("field named as constant "+c+": length", small(c), lfield("x", Bit(3), length(Name(c))))
		root("field named as constant "+c+": width", small(c), F("x", BitDyn(Ex(c+" + 1", func(e *Env) int64 { return e.Get(c) + 1 }))))
		root("field named as constant "+c+": condition", small(c), lfield("x", Bit(3), func(f *Field) { f.Cond = gt }))
		ps := b.PStruct([]Param{{c, UInt(8)}}, lfield("x", Bit(3), length(Name(c))), lfield("y", Bit(2), func(f *Field) { f.Cond = gt }))
		root("parameter named as constant "+c, small("m"), lfield("x", ps, args(Name("m"))))
		root("argument named as constant "+c, small(c), lfield("x", ps, args(Name(c))))
		ch := b.Choice([]Param{{c, UInt(8)}}, Name(c), []Case{{[]string{"3"}, []int64{3}, 0}}, 1, true, F("a", Bit(3)), F("b", Bit(5)))
		root("selector named as constant "+c, small("m"), lfield("x", ch, args(Name("m"))))
		fn := b.Struct(small("m"), lfield("x", Bit(3), length(Ex(c+"()", func(e *Env) int64 { return e.Get("m") + 1 }))))
		fn.Funcs = []Func{{"uint8", c, "m + 1"}}
		b.Root(fn, "scope function named as constant "+c).Max = 60
	}
	// one name as a field of several types
	in1 := b.Struct(small("v"), lfield("x", Bit(3), length(Name("v"))))
	in2 := b.Struct(F("v", in1), lfield("x", Bit(2), length(Name("v.v"))))
	root("the same field name at every level", F("v", in2), lfield("x", Bit(2), length(Name("v.v.v"))))
	// fields named as types
	e := b.StdEnum()
	f1 := F("SX", ref(UInt(8), "SX").With(Int(0), Int(2)))
	root("field named as its type", f1, lfield("x", Bit(3), length(Name("SX"))))
	f2 := F(e.Name, e)
	root("field named as its enum", f2, lfield("x", Bit(3), func(f *Field) {
		f.Cond = Ex(fmt.Sprintf("%s == %s.ONE", e.Name, e.Name), func(x *Env) int64 { return b2i(x.Get(e.Name) == 1) })
	}))
	_ = th
}

// subtypes: every kind of field through chains of subtypes.
func subtypes(s *Set, libs []*lib, th bool) {
	ch := s.Chunk("sb", 40)
	names := []string{"uint8", "int64", "bit:3", "int:33", "bit:64", "varint16", "varuint", "varsize", "bool", "float16", "float64", "string", "bytes", "extern", "enum", "bitmask", "struct", "union"}
	if th {
		names = nil
		for _, l := range Leaves() {
			names = append(names, l.Name)
		}
	}
	for _, l := range Pick(Leaves(), names...) {
		for depth := 1; depth <= 3; depth++ {
			b := ch.B()
			t := l.Make(b, "x").T
			for i := 0; i < depth; i++ {
				t = b.Sub(t)
			}
			uses(b, t, fmt.Sprintf("subtype %d of %s", depth, l.Name), true)
		}
	}
}

// tpl is a template declaration with the model of its instantiations.
type tpl struct {
	name, text string
	n          int
	k          Kind
	par        []Param
	f          func(a []*Type) []*Field
	arg        func(t *Type) bool // arguments it takes
	set        func(t *Type, a []*Type)
}

func tpls() []tpl {
	packable := func(t *Type) bool { return t.Packable() }
	integer := func(t *Type) bool { return t.K == KFix && !t.Signed || t.K == KVar && !t.Signed }
	k := []Param{{Name: "k", T: UInt(8)}}
	var one *tpl
	mk := func(p *tpl, a ...*Type) *Type {
		r := &Type{K: p.k, Name: p.name, Fields: p.f(a), Params: p.par}
		if p.set != nil {
			p.set(r, a)
		}
		return r
	}
	one = &tpl{name: "One", text: "struct One<T>\n{\n    T f;\n};\n", n: 1, k: KStruct, f: func(a []*Type) []*Field { return []*Field{F("f", a[0])} }}
	gt := Ex("x > 3", func(e *Env) int64 { return b2i(e.Get("x") > 3) })
	all := &tpl{name: "All", text: "struct All<T>\n{\n    bit:3 x;\n    T f;\n    T g[];\n    optional T h;\n    T k if x > 3;\nalign(16):\n    T a;\n    T c[2];\n};\n", n: 1, k: KStruct,
		f: func(a []*Type) []*Field {
			return []*Field{F("x", Bit(3)), F("f", a[0]), lfield("g", a[0], auto), lfield("h", a[0], opt), lfield("k", a[0], func(f *Field) { f.Cond = gt }),
				lfield("a", a[0], func(f *Field) { f.Align = 16 }), lfield("c", a[0], length(Lit(2)))}
		}}
	pck := &tpl{name: "Pck", text: "struct Pck<T>\n{\n    packed T g[];\n    T z;\n};\n", n: 1, k: KStruct, arg: packable,
		f: func(a []*Type) []*Field { return []*Field{lfield("g", a[0], packd), F("z", a[0])} }}
	two := &tpl{name: "Two", text: "struct Two<A, B>\n{\n    A a;\n    B b[];\n    A c;\n};\n", n: 2, k: KStruct,
		f: func(a []*Type) []*Field { return []*Field{F("a", a[0]), lfield("b", a[1], auto), F("c", a[0])} }}
	swp := &tpl{name: "Swp", text: "struct Swp<A, B>\n{\n    Two<B, A> x;\n    Two<A, B> y;\n    Two<A, A> z;\n    Two<A, uint8> w;\n};\n", n: 2, k: KStruct,
		f: func(a []*Type) []*Field {
			return []*Field{F("x", mk(two, a[1], a[0])), F("y", mk(two, a[0], a[1])), F("z", mk(two, a[0], a[0])), F("w", mk(two, a[0], UInt(8)))}
		}}
	nst := &tpl{name: "Nst", text: "struct Nst<T>\n{\n    One<T> a;\n    One<T> b[];\n    optional One<T> c;\n};\n", n: 1, k: KStruct,
		f: func(a []*Type) []*Field {
			o := mk(one, a[0])
			return []*Field{F("a", o), lfield("b", o, auto), lfield("c", o, opt)}
		}}
	deep := &tpl{name: "Deep", text: "struct Deep<T>\n{\n    One<One<T>> a;\n    Two<One<T>, T> b;\n    One<Two<T, bit:3> > c;\n};\n", n: 1, k: KStruct,
		f: func(a []*Type) []*Field {
			o := mk(one, a[0])
			return []*Field{F("a", mk(one, o)), F("b", mk(two, o, a[0])), F("c", mk(one, mk(two, a[0], Bit(3))))}
		}}
	cho := &tpl{name: "Cho", text: "choice Cho<T>(uint8 k) on k\n{\n    case 3:\n        T a;\n    case 4:\n        One<T> b;\n    case 1:\n        T l[];\n    default:\n        bit:3 c;\n};\n", n: 1, k: KChoice, par: k,
		f: func(a []*Type) []*Field {
			return []*Field{F("a", a[0]), F("b", mk(one, a[0])), lfield("l", a[0], auto), F("c", Bit(3))}
		},
		set: func(t *Type, a []*Type) {
			t.Sel, t.HasDef, t.Def = Name("k"), true, 3
			t.Cases = []Case{{Labels: []string{"3"}, Vals: []int64{3}, Field: 0}, {Labels: []string{"4"}, Vals: []int64{4}, Field: 1}, {Labels: []string{"1"}, Vals: []int64{1}, Field: 2}}
		}}
	uni := &tpl{name: "Uni", text: "union Uni<T>\n{\n    T a;\n    One<T> b;\n    T l[];\n    uint8 c;\n};\n", n: 1, k: KUnion,
		f: func(a []*Type) []*Field {
			return []*Field{F("a", a[0]), F("b", mk(one, a[0])), lfield("l", a[0], auto), F("c", UInt(8))}
		}}
	par := &tpl{name: "Par", text: "struct Par<T>(uint8 k)\n{\n    bit<k> x;\n    T y;\n    One<T> z[k];\n};\n", n: 1, k: KStruct, par: k,
		f: func(a []*Type) []*Field {
			return []*Field{F("x", BitDyn(Name("k"))), F("y", a[0]), lfield("z", mk(one, a[0]), length(Name("k")))}
		}}
	pas := &tpl{name: "Pas", text: "struct Pas<T>\n{\n    bit:2 m;\n    Par<T>(m + 1) p;\n    Cho<T>(m) c;\n    Cho<T>(m + 1) d[];\n};\n", n: 1, k: KStruct,
		f: func(a []*Type) []*Field {
			m1 := Ex("m + 1", func(e *Env) int64 { return e.Get("m") + 1 })
			return []*Field{F("m", Bit(2)), lfield("p", mk(par, a[0]), args(m1)), lfield("c", mk(cho, a[0]), args(Name("m"))), lfield("d", mk(cho, a[0]), args(m1), auto)}
		}}
	ptt := &tpl{name: "Ptt", text: "struct Ptt<T>(T p)\n{\n    bit:2 x[p & 3];\n    bit:3 y if p + 1 > 2;\n};\n", n: 1, k: KStruct, arg: integer,
		f: func(a []*Type) []*Field {
			return []*Field{lfield("x", Bit(2), length(Ex("p & 3", func(e *Env) int64 { return e.Get("p") & 3 }))),
				lfield("y", Bit(3), func(f *Field) {
					f.Cond = Ex("p + 1 > 2", func(e *Env) int64 { return b2i(e.Get("p")+1 > 2) })
				})}
		},
		set: func(t *Type, a []*Type) { t.Params = []Param{{Name: "p", T: a[0]}} }}
	fun := &tpl{name: "Fun", text: "struct Fun<T>\n{\n    T v;\n    bit:2 x[g() & 3];\n    bit<(v & 7) + 1> w;\n    bit:3 y if v * 2 == 4;\n    function T g() { return v; }\n};\n", n: 1, k: KStruct, arg: integer,
		f: func(a []*Type) []*Field {
			return []*Field{F("v", a[0].With(Int(0), Int(1), Int(2), Int(3))), lfield("x", Bit(2), length(Ex("g() & 3", func(e *Env) int64 { return e.Get("v") & 3 }))),
				F("w", BitDyn(Ex("(v & 7) + 1", func(e *Env) int64 { return e.Get("v")&7 + 1 }))),
				lfield("y", Bit(3), func(f *Field) {
					f.Cond = Ex("v * 2 == 4", func(e *Env) int64 { return b2i(e.Get("v")*2 == 4) })
				})}
		}}
	gw := Ex("(g() & 7) + 1", func(e *Env) int64 { return e.Get("p")&7 + 1 })
	chp := &tpl{name: "Chp", text: "choice Chp<T>(T p) on p\n{\n    case 1:\n        T a;\n    case 2:\n    case 3:\n        bit<(g() & 7) + 1> b;\n    default:\n        One<T> c[p & 3];\n\n    function T g() { return p; }\n};\n", n: 1, k: KChoice, arg: integer,
		f: func(a []*Type) []*Field {
			return []*Field{F("a", a[0]), F("b", BitDyn(gw)), lfield("c", mk(one, a[0]), length(Ex("p & 3", func(e *Env) int64 { return e.Get("p") & 3 })))}
		},
		set: func(t *Type, a []*Type) {
			t.Params = []Param{{Name: "p", T: a[0]}}
			t.Sel, t.HasDef, t.Def = Name("p"), true, 2
			t.Cases = []Case{{Labels: []string{"1"}, Vals: []int64{1}, Field: 0}, {Labels: []string{"2", "3"}, Vals: []int64{2, 3}, Field: 1}}
		}}
	unp := &tpl{name: "Unp", text: "union Unp<T>(T p)\n{\n    T a;\n    bit<(g() & 7) + 1> b;\n    One<T> c[p & 3];\n\n    function T g() { return p; }\n};\n", n: 1, k: KUnion, arg: integer,
		f: func(a []*Type) []*Field {
			return []*Field{F("a", a[0]), F("b", BitDyn(gw)), lfield("c", mk(one, a[0]), length(Ex("p & 3", func(e *Env) int64 { return e.Get("p") & 3 })))}
		},
		set: func(t *Type, a []*Type) { t.Params = []Param{{Name: "p", T: a[0]}} }}
	return []tpl{*one, *all, *pck, *two, *swp, *nst, *deep, *cho, *uni, *par, *pas, *ptt, *fun, *chp, *unp}
}

// templates: every template with every kind of argument.
func templates(pkg func(raw string, imports ...string) *B, libs []*lib, th bool) {
	decls := ""
	for _, t := range tpls() {
		decls += t.text
	}
	l := libs[0]
	argTypes := func(b *B) []*Type {
		st := b.StdStruct()
		st1 := &Type{K: KStruct, Name: "One", Text: "One<bit:5>", Fields: []*Field{F("f", Bit(5))}}
		st2 := &Type{K: KStruct, Name: "One", Text: "One<" + st.Name + ">", Fields: []*Field{F("f", st)}}
		r := []*Type{UInt(8), Bit(3), Bit(5), IntN(9), Bit(33), Var("varuint32"), Var("varint"), Bool(), F32(), String(), Bytes(), Extern(), b.StdEnum(), b.StdMask(), st, b.StdUnion(),
			b.Sub(Bit(7)), b.Sub(b.Sub(UInt(16))), b.Sub(b.StdEnum()), b.Sub(st), st1, st2, l.t["LS"], l.t["LE"], l.t["LESub"], l.t["LBits2"], ref(l.t["LS"], "liba.LS")}
		return r
	}
	app := func(t *tpl, a ...*Type) *Type {
		var n []string
		for _, x := range a {
			n = append(n, x.Text)
		}
		r := &Type{K: t.k, Name: t.name, Params: t.par, Text: t.name + "<" + strings.Join(n, ", ") + ">", Fields: t.f(a)}
		if t.set != nil {
			t.set(r, a)
		}
		return r
	}
	// all in one package, and the templates in a package of their own
	for _, far := range []bool{false, true} {
		raw, imps := decls, []string{"liba.*"}
		if far {
			raw = ""
			imps = append(imps, "tpls.*")
		}
		b := pkg(raw, imps...)
		as := argTypes(b)
		for _, t := range tpls() {
			t := t
			for i, a := range as {
				if t.arg != nil && !t.arg(a) {
					continue
				}
				av := []*Type{a}
				if t.n == 2 {
					av = append(av, as[(i*3+1)%len(as)])
				}
				x := app(&t, av...)
				full := th || (i+len(t.name))%6 == 0
				uses(b, x, fmt.Sprintf("template %v %s", far, x.Text), full)
				if full {
					b.S.Raw += fmt.Sprintf("subtype %s TSub%d;\ninstantiate %s TIns%d;\n", x.Text, b.n, x.Text, b.n)
					y, z := ref(x, fmt.Sprintf("TSub%d", b.n)), ref(x, fmt.Sprintf("TIns%d", b.n))
					uses(b, y, fmt.Sprintf("template %v subtype %s", far, x.Text), th)
					uses(b, z, fmt.Sprintf("template %v instantiate %s", far, x.Text), th)
				}
			}
		}
		if far {
			b.set.Files["tpls.zs"] = "package tpls;\n" + decls
		}
	}
	// names that run together, and names that are taken
	b := pkg("struct A { bit:1 x; };\nstruct AB { bit:2 x; };\nstruct BC { bit:3 x; };\nstruct C { bit:4 x; };\nstruct TwoCA { uint8 taken; };\nstruct OneC { uint8 taken; };\nstruct One_C { uint8 taken; };\n" + decls)
	mkS := func(n string, w int) *Type {
		return &Type{K: KStruct, Name: n, Text: n, Fields: []*Field{F("x", Bit(w))}}
	}
	ts := tpls()
	sort.Slice(ts, func(i, j int) bool { return ts[i].name < ts[j].name })
	find := func(n string) *tpl {
		for i := range ts {
			if ts[i].name == n {
				return &ts[i]
			}
		}
		panic(n)
	}
	A, AB, BC, C := mkS("A", 1), mkS("AB", 2), mkS("BC", 3), mkS("C", 4)
	taken := func(n string) *Type {
		return &Type{K: KStruct, Name: n, Text: n, Fields: []*Field{F("taken", UInt(8))}}
	}
	b.Root(b.Struct(F("a", app(find("Two"), A, BC)), F("b", app(find("Two"), AB, C))), "names running together").Max = 60
	b.Root(b.Struct(F("a", app(find("Two"), C, A)), F("b", taken("TwoCA")), F("c", app(find("One"), C)), F("d", taken("OneC")), F("e", taken("One_C"))), "names taken").Max = 60
}
