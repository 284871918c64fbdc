package fam

import (
	"fmt"
	"math/bits"
	"strings"

	. "mc/zs"
)

func init() { families["C09"] = C09 }

// consumer is a parameterised type with an integer parameter p.
type consumer struct {
	name string
	mk   func(b *B) *Type
}

func consumers() []consumer {
	p := []Param{{"p", UInt(8)}}
	with := func(f *Field, d func(f *Field)) *Field { d(f); return f }
	one := func(f func(b *B) []*Field) func(b *B) *Type {
		return func(b *B) *Type { return b.PStruct(p, f(b)...) }
	}
	gt3 := func() *Expr { return Ex("p > 3", func(e *Env) int64 { return b2i(e.Get("p") > 3) }) }
	return []consumer{
		{"bit<p>", one(func(b *B) []*Field { return []*Field{F("v", BitDyn(Name("p")))} })},
		{"int<p>", one(func(b *B) []*Field { return []*Field{F("v", IntDyn(Name("p"))), F("w", Bit(1))} })},
		{"bit<p>[]", one(func(b *B) []*Field {
			return []*Field{with(F("v", BitDyn(Name("p"))), func(f *Field) { f.Arr = &Arr{} }), F("w", Bit(1))}
		})},
		{"packed int<p>[]", one(func(b *B) []*Field {
			return []*Field{with(F("v", IntDyn(Name("p"))), func(f *Field) { f.Arr = &Arr{Packed: true} })}
		})},
		{"optional bit<p>", one(func(b *B) []*Field { return []*Field{with(F("v", BitDyn(Name("p"))), func(f *Field) { f.Opt = true })} })},
		{"[p]", one(func(b *B) []*Field {
			return []*Field{with(F("v", Bit(3)), func(f *Field) { f.Arr = &Arr{Len: Name("p")} })}
		})},
		{"packed [p]", one(func(b *B) []*Field {
			return []*Field{with(F("v", UInt(16)), func(f *Field) { f.Arr = &Arr{Len: Name("p"), Packed: true} })}
		})},
		{"if p", one(func(b *B) []*Field {
			return []*Field{with(F("v", UInt(8)), func(f *Field) { f.Cond = gt3() }), F("w", Bit(2))}
		})},
		{"if p else", one(func(b *B) []*Field {
			return []*Field{with(F("v", String()), func(f *Field) { f.Cond = gt3(); f.Align = 8 }), with(F("w", b.StdStruct()), func(f *Field) { f.Cond = Ex("p <= 3", func(e *Env) int64 { return b2i(e.Get("p") <= 3) }) })}
		})},
		{"pass on", one(func(b *B) []*Field {
			in := b.PStruct([]Param{{"q", UInt(8)}}, F("x", BitDyn(Name("q"))))
			return []*Field{with(F("v", in), func(f *Field) { f.Args = []*Expr{Name("p")} }), with(F("w", in), func(f *Field) {
				f.Args = []*Expr{Ex("p + 1", func(e *Env) int64 { return e.Get("p") + 1 })}
				f.Opt = true
			})}
		})},
		{"pass on to array", one(func(b *B) []*Field {
			in := b.PStruct([]Param{{"q", UInt(8)}}, F("x", BitDyn(Name("q"))))
			return []*Field{with(F("v", in), func(f *Field) { f.Args = []*Expr{Name("p")}; f.Arr = &Arr{Len: Lit(2)} })}
		})},
		{"choice on p", func(b *B) *Type {
			return b.Choice(p, Name("p"), []Case{{[]string{"3", "4"}, []int64{3, 4}, 0}, {[]string{"5"}, []int64{5}, 1}}, 2, true, F("a", UInt(8)), F("b", String()), F("c", Bit(3)))
		}},
		{"union", func(b *B) *Type {
			return b.add(&Type{K: KUnion, Name: b.name("PU"), Params: p, Fields: []*Field{F("x", BitDyn(Name("p"))), F("y", UInt(8))}})
		}},
		{"function of p", func(b *B) *Type {
			t := b.PStruct(p, F("v", BitDyn(Ex("w()", func(e *Env) int64 { return e.Get("p") + 2 }))))
			t.Funcs = []Func{{"uint16", "w", "p + 2"}}
			return t
		}},
	}
}

type argument struct {
	name string
	lead func(b *B) []*Field // fields before the use
	text string
	ev   func(e *Env) int64
	fun  *Func
}

func arguments() []argument {
	n := func(b *B) []*Field { return []*Field{F("n", UInt(8).With(Int(3), Int(9), Int(1)))} }
	return []argument{
		{"literal", nil, "5", func(e *Env) int64 { return 5 }, nil},
		{"const", nil, "WIDTH", func(e *Env) int64 { return 6 }, nil},
		{"sibling", n, "n", func(e *Env) int64 { return e.Get("n") }, nil},
		{"sum", n, "n + 1", func(e *Env) int64 { return e.Get("n") + 1 }, nil},
		{"two siblings", func(b *B) []*Field {
			return []*Field{F("n", UInt(8).With(Int(3), Int(9))), F("m", Bit(4).With(Int(1), Int(2)))}
		}, "n + m", func(e *Env) int64 { return e.Get("n") + e.Get("m") }, nil},
		{"bit sibling", func(b *B) []*Field { return []*Field{F("n", Bit(5).With(Int(3), Int(9)))} }, "n", func(e *Env) int64 { return e.Get("n") }, nil},
		{"varint sibling", func(b *B) []*Field { return []*Field{F("n", Var("varuint").With(Int(3), Int(9)))} }, "n", func(e *Env) int64 { return e.Get("n") }, nil},
		{"signed sibling", func(b *B) []*Field { return []*Field{F("n", SInt(32).With(Int(3), Int(9)))} }, "n * 2", func(e *Env) int64 { return e.Get("n") * 2 }, nil},
		{"subtype sibling", func(b *B) []*Field {
			return []*Field{F("n", b.Sub(UInt(16)).With(Int(3), Int(9)))}
		}, "n", func(e *Env) int64 { return e.Get("n") }, nil},
		{"struct member", func(b *B) []*Field {
			if b.decls["hk"] == nil {
				b.decls["hk"] = b.Struct(F("j", UInt(8).With(Int(7))), F("k", UInt(8).With(Int(3), Int(9))))
			}
			return []*Field{F("s", b.decls["hk"])}
		}, "s.k", func(e *Env) int64 { return e.Get("s.k") }, nil},
		{"length", func(b *B) []*Field {
			f := F("l", Bit(2).With(Int(1)))
			f.Arr = &Arr{}
			return []*Field{f, F("n", Bit(2).With(Int(3)))}
		}, "lengthof(l) + 2", func(e *Env) int64 { return e.Get("l") + 2 }, nil},
		{"function", n, "fn()", func(e *Env) int64 { return e.Get("n") + 3 }, &Func{"uint16", "fn", "n + 3"}},
		{"quotient", n, "12 / n", func(e *Env) int64 { return Div(12, e.Get("n")) }, nil},
		{"index", nil, "@index + 3", func(e *Env) int64 { return int64(e.Idx) + 3 }, nil},
		{"element", func(b *B) []*Field {
			f := F("l", UInt(8).With(Int(3), Int(9)))
			f.Arr = &Arr{Len: Lit(3)}
			return []*Field{f}
		}, "l[@index]", func(e *Env) int64 { return e.Elem("l", e.Idx) }, nil},
		{"index, compared", n, "@index == 0 ? n : 6", func(e *Env) int64 { return pick(e.Idx == 0, e.Get("n"), 6) }, nil},
		{"index, chosen", n, "n > 3 ? @index + 2 : 6", func(e *Env) int64 { return pick(e.Get("n") > 3, int64(e.Idx)+2, 6) }, nil},
		{"index, otherwise", n, "n > 3 ? 6 : (@index) + 2", func(e *Env) int64 { return pick(e.Get("n") > 3, 6, int64(e.Idx)+2) }, nil},
		{"index, right operand", n, "n + @index", func(e *Env) int64 { return e.Get("n") + int64(e.Idx) }, nil},
		{"index, in an operator", nil, "numbits((@index + 1) * 3) + 2", func(e *Env) int64 { return int64(bits.Len64(uint64(e.Idx+1)*3-1)) + 2 }, nil},
		{"index of an index", func(b *B) []*Field {
			f := F("l", Bit(4).With(Int(3), Int(9)))
			f.Arr = &Arr{Len: Lit(3)}
			g := F("k", Bit(2).With(Int(2), Int(0)))
			g.Arr = &Arr{Len: Lit(3)}
			return []*Field{f, g}
		}, "l[k[@index]]", func(e *Env) int64 { return e.Elem("l", int(e.Elem("k", e.Idx))) }, nil},
		{"ternary", n, "n > 3 ? 5 : n + 1", func(e *Env) int64 { return pick(e.Get("n") > 3, 5, e.Get("n")+1) }, nil},
	}
}

func pick(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// C09: every argument form with every consumer at every kind of use.
func C09(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("pm", 30)
	ch.Setup = func(b *B) { b.S.Raw = "const uint8 WIDTH = 6;\n" }
	type site struct {
		name string
		arr  bool
		do   func(f *Field)
		lead bool
	}
	sites := []site{
		{"plain", false, func(f *Field) {}, false},
		{"opt", false, func(f *Field) { f.Opt = true }, false},
		{"if", false, func(f *Field) { f.Cond = Name("ctl") }, true},
		{"al8", false, func(f *Field) { f.Align = 8 }, false},
		{"[]", true, func(f *Field) { f.Arr = &Arr{} }, false},
		{"[2]", true, func(f *Field) { f.Arr = &Arr{Len: Lit(2)} }, false},
		{"packed[]", true, func(f *Field) { f.Arr = &Arr{Packed: true} }, false},
		{"opt[]", true, func(f *Field) { f.Opt = true; f.Arr = &Arr{} }, false},
		{"if packed[2]", true, func(f *Field) { f.Cond = Name("ctl"); f.Arr = &Arr{Packed: true, Len: Lit(2)} }, true},
	}
	for _, a := range arguments() {
		for _, c := range consumers() {
			b := ch.B()
			t := c.mk(b)
			for _, st := range sites {
				if (strings.HasPrefix(a.name, "index") || a.name == "element") && !st.arr {
					continue
				}
				var fs []*Field
				if st.lead {
					fs = append(fs, F("ctl", Bool()))
				}
				if a.lead != nil {
					fs = append(fs, a.lead(b)...)
				}
				f := F("u", t)
				f.Args = []*Expr{Ex(a.text, a.ev)}
				st.do(f)
				o := b.Struct(append(fs, f, F("z", Bit(3).With(Int(5))))...)
				if a.fun != nil {
					o.Funcs = append(o.Funcs, *a.fun)
				}
				b.Root(o, fmt.Sprintf("argument %s to %s at %s", a.name, c.name, st.name)).Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
			}
			// used inside packed elements, and inside a parameterised caller
			if strings.HasPrefix(a.name, "index") || a.name == "element" {
				continue
			}
			var fs []*Field
			if a.lead != nil {
				fs = a.lead(b)
			}
			f := F("u", t)
			f.Args = []*Expr{Ex(a.text, a.ev)}
			el := b.Struct(append(fs, f)...)
			if a.fun != nil {
				el.Funcs = append(el.Funcs, *a.fun)
			}
			g := F("es", el)
			g.Arr = &Arr{Packed: true}
			b.Root(b.Struct(g), fmt.Sprintf("argument %s to %s inside packed elements", a.name, c.name)).Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
		}
	}
	// the caller's own parameter, two parameters, wrong order detected
	for _, c := range consumers() {
		b := ch.B()
		t := c.mk(b)
		f := F("u", t)
		f.Args = []*Expr{Name("q")}
		mid := b.PStruct([]Param{{"q", UInt(8)}, {"r", UInt(8)}}, f, func() *Field {
			g := F("v", t)
			g.Args = []*Expr{Name("r")}
			g.Arr = &Arr{Len: Lit(2)}
			return g
		}())
		r := b.Root(mid, "own parameters to "+c.name)
		r.P = []map[string]int64{{"q": 3, "r": 6}, {"q": 5, "r": 2}}
		r.Lim.Small = true
		h := F("w", mid)
		h.Args = []*Expr{Name("n"), Name("m")}
		b.Root(b.Struct(F("n", UInt(8).With(Int(3), Int(6))), F("m", UInt(16).With(Int(2), Int(5))), h), "two parameters to "+c.name).Lim.Small = true
	}
	// parameter types
	for _, pt := range []struct {
		name string
		t    func(b *B) *Type
		dom  []int64
	}{
		{"uint8", func(b *B) *Type { return UInt(8) }, []int64{3, 9}},
		{"uint16", func(b *B) *Type { return UInt(16) }, []int64{3, 9}},
		{"uint32", func(b *B) *Type { return UInt(32) }, []int64{3, 9}},
		{"uint64", func(b *B) *Type { return UInt(64) }, []int64{3, 9}},
		{"int8", func(b *B) *Type { return SInt(8) }, []int64{3, 9}},
		{"int64", func(b *B) *Type { return SInt(64) }, []int64{3, 9}},
		{"bit:4", func(b *B) *Type { return Bit(4) }, []int64{3, 9}},
		{"int:6", func(b *B) *Type { return IntN(6) }, []int64{3, 9}},
		{"varsize", func(b *B) *Type { return Var("varsize") }, []int64{3, 9}},
		{"varint16", func(b *B) *Type { return Var("varint16") }, []int64{3, 9}},
		{"subtype", func(b *B) *Type { return b.Sub(UInt(16)) }, []int64{3, 9}},
	} {
		for _, arr := range []bool{false, true} {
			for _, packed := range []bool{false, true} {
				b := ch.B()
				t := pt.t(b)
				c := F("c", UInt(8))
				c.Cond = Ex("p > 3", func(e *Env) int64 { return b2i(e.Get("p") > 3) })
				l := F("l", Bit(1))
				l.Arr = &Arr{Len: Name("p")}
				in := b.PStruct([]Param{{"p", t}}, F("v", BitDyn(Name("p"))), c, l)
				f := F("u", in)
				f.Args = []*Expr{Name("n")}
				if arr {
					f.Arr = &Arr{Len: Lit(2), Packed: packed}
				} else if packed {
					continue
				}
				var dom []*Val
				for _, x := range pt.dom {
					dom = append(dom, Int(x))
				}
				r := b.Root(b.Struct(F("n", t.With(dom...)), f), fmt.Sprintf("parameter type %s arr=%v packed=%v", pt.name, arr, packed))
				r.Lim.Small = true
			}
		}
	}
	// bool and enum parameters
	for _, k := range []string{"bool", "enum", "bitmask"} {
		for _, site := range []string{"", "[]", "packed[]", "opt"} {
			b := ch.B()
			var t *Type
			var cond string
			var ev func(*Env) int64
			var dom []*Val
			switch k {
			case "bool":
				t, cond, ev, dom = Bool(), "p", func(e *Env) int64 { return e.Get("p") }, []*Val{Int(0), Int(1)}
			case "enum":
				t = b.StdEnum()
				cond, ev, dom = "p == "+t.Name+".NEG", func(e *Env) int64 { return b2i(e.Get("p") == -7) }, []*Val{Int(-7), Int(1)}
			case "bitmask":
				t = b.StdMask()
				cond, ev, dom = "isset(p, "+t.Name+".W)", func(e *Env) int64 { return b2i(e.Get("p")&2 != 0) }, []*Val{Int(1), Int(2), Int(3)}
			}
			c := F("c", UInt(8))
			c.Cond = Ex(cond, ev)
			in := b.PStruct([]Param{{"p", t}}, c, F("d", Bit(3)))
			f := F("u", in)
			f.Args = []*Expr{Name("n")}
			switch site {
			case "[]":
				f.Arr = &Arr{}
			case "packed[]":
				f.Arr = &Arr{Packed: true}
			case "opt":
				f.Opt = true
			}
			b.Root(b.Struct(F("n", t.With(dom...)), f), fmt.Sprintf("%s parameter%s", k, site))
		}
	}
	// a whole struct as the argument
	for _, site := range []string{"", "[]", "[2]", "packed[]", "opt", "al8"} {
		for i, mk := range []func(b *B, st *Type) *Type{
			func(b *B, st *Type) *Type { return b.PStruct([]Param{{"h", st}}, F("v", BitDyn(Name("h.k")))) },
			func(b *B, st *Type) *Type {
				c := F("c", UInt(8))
				c.Cond = Ex("h.k > h.j", func(e *Env) int64 { return b2i(e.Get("h.k") > e.Get("h.j")) })
				return b.PStruct([]Param{{"h", st}}, c, F("w", Bit(2)))
			},
			func(b *B, st *Type) *Type {
				l := F("l", UInt(8))
				l.Arr = &Arr{Len: Name("h.k")}
				return b.PStruct([]Param{{"h", st}}, l)
			},
			func(b *B, st *Type) *Type {
				return b.Choice([]Param{{"h", st}}, Name("h.k"), []Case{{[]string{"3"}, []int64{3}, 0}, {[]string{"9"}, []int64{9}, 1}}, -1, false, F("a", UInt(8)), F("b", String()))
			},
			func(b *B, st *Type) *Type {
				in := b.PStruct([]Param{{"g", st}}, F("v", BitDyn(Name("g.k"))))
				f := F("x", in)
				f.Args = []*Expr{Name("h")}
				return b.PStruct([]Param{{"h", st}}, f)
			},
		} {
			b := ch.B()
			st := b.Struct(F("j", UInt(8).With(Int(7), Int(1))), F("k", UInt(8).With(Int(3), Int(9))))
			t := mk(b, st)
			f := F("u", t)
			f.Args = []*Expr{Name("s")}
			switch site {
			case "[]":
				f.Arr = &Arr{}
			case "[2]":
				f.Arr = &Arr{Len: Lit(2)}
			case "packed[]":
				f.Arr = &Arr{Packed: true}
			case "opt":
				f.Opt = true
			case "al8":
				f.Align = 8
			}
			b.Root(b.Struct(F("s", st), f), fmt.Sprintf("struct parameter %d%s", i, site)).Lim.Small = true
		}
	}
	// members of every kind of a struct argument, seen through subtypes too
	for mi, m := range []struct {
		name string
		mk   func(b *B, st *Type) *Type
	}{
		{"enum member", func(b *B, st *Type) *Type {
			c := F("c", UInt(8))
			c.Cond = Ex("h.e == "+b.StdEnum().Name+".NEG", func(e *Env) int64 { return b2i(e.Get("h.e") == -7) })
			return b.PStruct([]Param{{"h", st}}, c, F("w", Bit(2)))
		}},
		{"value of an enum member", func(b *B, st *Type) *Type {
			return b.PStruct([]Param{{"h", st}}, F("v", BitDyn(Ex("valueof(h.e) + 10", func(e *Env) int64 { return e.Get("h.e") + 10 }))))
		}},
		{"bitmask member", func(b *B, st *Type) *Type {
			c := F("c", UInt(8))
			c.Cond = Ex("isset(h.m, "+b.StdMask().Name+".W)", func(e *Env) int64 { return b2i(e.Get("h.m")&2 != 0) })
			return b.PStruct([]Param{{"h", st}}, c, F("w", Bit(2)))
		}},
		{"bool member", func(b *B, st *Type) *Type {
			c := F("c", UInt(8))
			c.Cond = Ex("!h.b", func(e *Env) int64 { return b2i(e.Get("h.b") == 0) })
			return b.PStruct([]Param{{"h", st}}, c, F("w", Bit(2)))
		}},
		{"length of a member", func(b *B, st *Type) *Type {
			l := F("x", Bit(3))
			l.Arr = &Arr{Len: Ex("lengthof(h.l) + 1", func(e *Env) int64 { return e.Get("h.l") + 1 })}
			return b.PStruct([]Param{{"h", st}}, l)
		}},
		{"element of a member", func(b *B, st *Type) *Type {
			return b.PStruct([]Param{{"h", st}}, F("v", BitDyn(Ex("h.l[0] + 1", func(e *Env) int64 { return e.ElemOf("h.l", 0) + 1 }))))
		}},
		{"element by member", func(b *B, st *Type) *Type {
			return b.PStruct([]Param{{"h", st}}, F("v", BitDyn(Ex("h.l[h.b ? 1 : 0] + 1", func(e *Env) int64 { return e.ElemOf("h.l", int(e.Get("h.b"))) + 1 }))))
		}},
		{"enum selector", func(b *B, st *Type) *Type {
			n := b.StdEnum().Name
			return b.Choice([]Param{{"h", st}}, Name("h.e"), []Case{{[]string{n + ".ONE", n + ".MAX"}, []int64{1, 127}, 0}, {[]string{n + ".NEG"}, []int64{-7}, 1}}, -1, false, F("a", UInt(8)), F("b", String()))
		}},
		{"bitmask selector", func(b *B, st *Type) *Type {
			n := b.StdMask().Name
			return b.Choice([]Param{{"h", st}}, Name("h.m"), []Case{{[]string{n + ".R"}, []int64{1}, 0}, {[]string{n + ".W"}, []int64{2}, 1}}, 2, true, F("a", UInt(8)), F("b", String()), F("c", Bit(3)))
		}},
		{"passed on", func(b *B, st *Type) *Type {
			c := F("c", UInt(8))
			c.Cond = Ex("g.e == "+b.StdEnum().Name+".ONE && lengthof(g.l) == 2", func(e *Env) int64 { return b2i(e.Get("g.e") == 1 && e.Get("g.l") == 2) })
			in := b.PStruct([]Param{{"g", st}}, c, F("v", BitDyn(Ex("g.l[1] + 1", func(e *Env) int64 { return e.ElemOf("g.l", 1) + 1 }))))
			f := F("x", in)
			f.Args = []*Expr{Name("h")}
			return b.PStruct([]Param{{"h", st}}, f)
		}},
	} {
		for _, subs := range []int{0, 2} {
			for _, site := range []string{"", "[]", "packed[]", "opt"} {
				b := ch.B()
				l := F("l", Bit(3).With(Int(2), Int(5)))
				l.Arr = &Arr{Len: Lit(2)}
				st := b.Struct(F("e", b.StdEnum().With(Int(1), Int(-7))), F("b", Bool()), F("m", b.StdMask().With(Int(1), Int(2), Int(128))), l)
				pt := st
				for i := 0; i < subs; i++ {
					pt = b.Sub(pt)
				}
				f := F("u", m.mk(b, pt))
				f.Args = []*Expr{Name("s")}
				switch site {
				case "[]":
					f.Arr = &Arr{}
				case "packed[]":
					f.Arr = &Arr{Packed: true}
				case "opt":
					f.Opt = true
				}
				us := st
				if mi%2 == 1 {
					us = pt
				}
				b.Root(b.Struct(F("s", us), f), fmt.Sprintf("struct parameter, %s%s, subtypes %d", m.name, site, subs)).Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
			}
		}
	}
	// dynamic widths and lengths from siblings, at every width and length
	for _, th := range []string{"bit", "int"} {
		for _, arr := range []string{"", "[]", "packed[]", "[3]", "opt"} {
			b := ch.B()
			var dom []*Val
			for w := int64(1); w <= 64; w++ {
				dom = append(dom, Int(w))
			}
			d := BitDyn(Name("n"))
			if th == "int" {
				d = IntDyn(Name("n"))
			}
			f := F("v", d)
			switch arr {
			case "[]":
				f.Arr = &Arr{}
			case "[3]":
				f.Arr = &Arr{Len: Lit(3)}
			case "packed[]":
				f.Arr = &Arr{Packed: true}
			case "opt":
				f.Opt = true
			}
			r := b.Root(b.Struct(F("n", UInt(8).With(dom...)), f, F("z", Bit(1))), fmt.Sprintf("%s<n>%s", th, arr))
			r.Max = 20000
		}
	}
	// the names of parameters and fields are those of constants, of enum items
	// and of types too
	for i, raw := range []string{
		"const uint8 p = 2;\nconst uint8 q = 7;\nconst uint16 n = 4;\nconst uint8 fn = 2;\n",
		"enum uint8 Named\n{\n    p = 2,\n    q = 7,\n    n = 4,\n    fn\n};\n",
		"subtype uint8 p;\nstruct q\n{\n    uint8 z;\n};\nbitmask uint8 n\n{\n    A\n};\nsubtype uint8 fn;\n",
	} {
		kind := []string{"constants", "enum items", "types"}[i]
		ch := s.Chunk(fmt.Sprintf("pn%d", i), 40)
		ch.Setup = func(b *B) { b.S.Raw = "const uint8 WIDTH = 6;\n" + raw }
		for _, c := range consumers() {
			b := ch.B()
			t := c.mk(b)
			for _, a := range arguments() {
				switch a.name {
				case "literal", "sibling", "sum", "two siblings", "function", "index":
				default:
					continue
				}
				for _, site := range []string{"", "[2]", "packed[]"} {
					if a.name == "index" && site == "" {
						continue
					}
					var fs []*Field
					if a.lead != nil {
						fs = a.lead(b)
					}
					f := F("u", t)
					f.Args = []*Expr{Ex(a.text, a.ev)}
					switch site {
					case "[2]":
						f.Arr = &Arr{Len: Lit(2)}
					case "packed[]":
						f.Arr = &Arr{Packed: true}
					}
					o := b.Struct(append(fs, f)...)
					if a.fun != nil {
						o.Funcs = append(o.Funcs, *a.fun)
					}
					r := b.Root(o, fmt.Sprintf("names of %s: argument %s to %s at %s", kind, a.name, c.name, site))
					r.Lim, r.Max = Lim{MaxLen: 2, LenFirst: 2, Small: true}, 100
				}
			}
		}
	}
	// siblings after use, conditions on several fields, optional lengths
	b := ch.B()
	l := F("l", Bit(3))
	l.Arr = &Arr{Len: Ex("n - 1", func(e *Env) int64 { return e.Get("n") - 1 })}
	b.Root(b.Struct(F("n", UInt(8).With(Int(1), Int(3), Int(4))), l), "length n - 1").Lim.Small = true
	l2 := F("l", b.StdStruct())
	l2.Arr = &Arr{Len: Ex("n * m", func(e *Env) int64 { return e.Get("n") * e.Get("m") })}
	b.Root(b.Struct(F("n", UInt(8).With(Int(1), Int(2))), F("m", UInt(16).With(Int(0), Int(2))), l2), "length n * m").Lim.Small = true
	return s
}
