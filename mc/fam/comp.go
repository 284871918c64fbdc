package fam

import (
	"fmt"
	"strings"

	. "mc/zs"
)

func init() {
	families["C07"] = C07
	families["C08"] = C08
	families["C10"] = C10
}

func (b *B) Choice(p []Param, sel *Expr, cases []Case, def int, hasDef bool, f ...*Field) *Type {
	return b.add(&Type{K: KChoice, Name: b.name("C"), Params: p, Sel: sel, Cases: cases, HasDef: hasDef, Def: def, Fields: f})
}

type selector struct {
	name   string
	t      func(b *B) *Type
	labels func(b *B) []string
	vals   []int64
	other  []int64 // values that match no label
}

func selectors() []selector {
	num := func(n string, t *Type, vals, other []int64) selector {
		return selector{n, func(*B) *Type { return t }, func(*B) []string {
			var r []string
			for _, v := range vals {
				r = append(r, fmt.Sprint(v))
			}
			return r
		}, vals, other}
	}
	return []selector{
		num("uint8", UInt(8), []int64{1, 0, 255}, []int64{7, 128}),
		num("uint16", UInt(16), []int64{256, 1, 65535}, []int64{0, 2}),
		num("int8", SInt(8), []int64{1, -1, -128}, []int64{0, 127}),
		num("int32", SInt(32), []int64{1, -1, -2147483648}, []int64{0, 127}),
		num("bit:3", Bit(3), []int64{1, 0, 7}, []int64{4}),
		num("int:5", IntN(5), []int64{1, -16, 15}, []int64{0, -1}),
		num("varuint", Var("varuint"), []int64{1, 0, 1 << 40}, []int64{4}),
		num("varint32", Var("varint32"), []int64{1, 0, -5}, []int64{4}),
		num("varsize", Var("varsize"), []int64{1, 0, 5}, []int64{4}),
		num("uint64", UInt(64), []int64{1, 0, 1 << 62}, []int64{4}),
		{"bool", func(*B) *Type { return Bool() }, func(*B) []string { return []string{"true", "false"} }, []int64{1, 0}, nil},
		{"enum", func(b *B) *Type { return b.StdEnum() }, func(b *B) []string {
			n := b.StdEnum().Name
			return []string{n + ".ONE", n + ".NEG", n + ".MAX"}
		}, []int64{1, -7, 127}, []int64{-6}},
		{"enumU", func(b *B) *Type { return b.StdEnumU() }, func(b *B) []string { return []string{"A", "C"} }, []int64{0, 17}, []int64{1}},
		{"bitmask", func(b *B) *Type { return b.StdMask() }, func(b *B) []string {
			n := b.StdMask().Name
			return []string{n + ".R", n + ".X"}
		}, []int64{1, 128}, []int64{0, 3, 131}},
	}
}

// cases splits the labels over branches of the given form; returns cases and
// the number of fields they use.
//
//	"1"  one label per case, each with a field
//	"m"  the first case has all labels but the last
//	"e"  the first case has no field
func mkCases(form string, labels []string, vals []int64) ([]Case, int) {
	n := 0
	var cs []Case
	add := func(l []string, v []int64, field bool) {
		c := Case{Labels: l, Vals: v, Field: -1}
		if field {
			c.Field = n
			n++
		}
		cs = append(cs, c)
	}
	k := len(labels)
	switch form {
	case "1":
		for i := range labels {
			add(labels[i:i+1], vals[i:i+1], true)
		}
	case "m":
		add(labels[:k-1], vals[:k-1], true)
		add(labels[k-1:], vals[k-1:], true)
	case "M": // the last case has all labels but the first
		add(labels[:1], vals[:1], true)
		add(labels[1:], vals[1:], true)
	case "e":
		add(labels[:1], vals[:1], false)
		add(labels[1:], vals[1:], true)
	case "E":
		add(labels[:k-1], vals[:k-1], true)
		add(labels[k-1:], vals[k-1:], false)
	}
	return cs, n
}

// branch fields used in turn
func branchFields(b *B, n int, off int) []*Field {
	all := Pick(Leaves(), "uint16", "string", "struct", "bit:3", "enum", "varint", "bytes", "bool", "float32", "union", "extern", "bitmaskB", "subint")
	var r []*Field
	for i := 0; i < n; i++ {
		r = append(r, all[(i+off)%len(all)].Make(b, fmt.Sprintf("f%c", 'a'+i)))
	}
	return r
}

// stdChoice makes a choice over a selector.
func stdChoice(b *B, sel selector, form, def string, off int) *Type {
	cs, n := mkCases(form, sel.labels(b), sel.vals)
	hasDef, d := def != "", -1
	if def == "f" {
		d = n
		n++
	}
	return b.Choice([]Param{{"sel", sel.t(b)}}, Name("sel"), cs, d, hasDef, branchFields(b, n, off)...)
}

func selParams(sel selector) []map[string]int64 {
	var r []map[string]int64
	for _, v := range append(append([]int64{}, sel.vals...), sel.other...) {
		r = append(r, map[string]int64{"sel": v})
	}
	return r
}

// C07: choices.
func C07(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("cho", 40)
	off := 0
	for _, sel := range selectors() {
		for _, form := range []string{"1", "m", "M", "e", "E"} {
			for _, def := range []string{"", "f", "n"} {
				off++
				b := ch.B()
				t := stdChoice(b, sel, form, def, off)
				d := fmt.Sprintf("choice on %s cases %s default %q", sel.name, form, def)
				r := b.Root(t, d)
				r.P = selParams(sel)
				// inside a struct that carries the selector
				all := append(append([]int64{}, sel.vals...), sel.other...)
				var dom []*Val
				for _, v := range all {
					dom = append(dom, Int(v))
				}
				f := F("c", t)
				f.Args = []*Expr{Name("k")}
				f2 := F("c2", t)
				f2.Args = []*Expr{Name("k")}
				b.Root(b.Struct(F("k", sel.t(b).With(dom...)), f, F("z", Bit(2).With(Int(2))), f2), d+" in struct").Lim.Small = true
			}
		}
	}
	// every leaf kind, and arrays, as branch and default field
	sel := selectors()[0]
	for _, sh := range Leaves() {
		for _, arr := range []string{"", "[]", "[2]", "packed[]"} {
			b := ch.B()
			mk := func(n string) *Field {
				f := sh.Make(b, n)
				switch arr {
				case "[]":
					f.Arr = &Arr{}
				case "[2]":
					f.Arr = &Arr{Len: Lit(2)}
				case "packed[]":
					f.Arr = &Arr{Packed: true}
				}
				return f
			}
			t := b.Choice([]Param{{"sel", UInt(8)}}, Name("sel"), []Case{{[]string{"1"}, []int64{1}, 0}}, 1, true, mk("a"), mk("b"))
			r := b.Root(t, "choice branches "+sh.Name+arr)
			r.P = []map[string]int64{{"sel": 1}, {"sel": 0}}
			r.Lim.Small = arr != ""
		}
	}
	// selector expressions and several parameters
	for _, x := range []struct {
		text string
		f    func(*Env) int64
	}{
		{"sel + 1", func(e *Env) int64 { return e.Get("sel") + 1 }},
		{"sel & 3", func(e *Env) int64 { return e.Get("sel") & 3 }},
		{"(sel)", func(e *Env) int64 { return e.Get("sel") }},
		{"sel + other", func(e *Env) int64 { return e.Get("sel") + e.Get("other") }},
		{"other", func(e *Env) int64 { return e.Get("other") }},
	} {
		b := ch.B()
		t := b.Choice([]Param{{"sel", UInt(8)}, {"other", UInt(8)}}, Ex(x.text, x.f), []Case{{[]string{"1"}, []int64{1}, 0}, {[]string{"2", "3"}, []int64{2, 3}, 1}}, -1, true, F("a", UInt(8)), F("b", String()))
		r := b.Root(t, "choice on "+x.text)
		for i := int64(0); i < 5; i++ {
			for j := int64(0); j < 3; j++ {
				r.P = append(r.P, map[string]int64{"sel": i, "other": j})
			}
		}
	}
	splits(s.Chunk("spl", 60), th)
	throughCompound(s)
	ln := 0
	labelNames(func() *B { ln++; return s.Pkg(fmt.Sprintf("lab%d", ln)) })
	// a choice nested in a choice, a choice in arrays, modified choice fields
	{
		b := ch.B()
		in := stdChoice(b, sel, "m", "f", 3)
		f := F("x", in)
		f.Args = []*Expr{Name("lo")}
		t := b.Choice([]Param{{"hi", UInt(8)}, {"lo", UInt(8)}}, Name("hi"), []Case{{[]string{"1"}, []int64{1}, 0}}, 1, true, f, F("y", UInt(8)))
		r := b.Root(t, "nested choice")
		for i := int64(0); i < 2; i++ {
			for _, j := range []int64{0, 1, 255, 9} {
				r.P = append(r.P, map[string]int64{"hi": i, "lo": j})
			}
		}
		for _, k := range arrKinds()[:4] {
			for _, packed := range []bool{false, true} {
				f := F("c", in)
				f.Args = []*Expr{Name("k")}
				f.Arr = &Arr{Len: k.len, Packed: packed}
				b.Root(b.Struct(F("k", UInt(8).With(Int(1), Int(0), Int(255), Int(9))), f), fmt.Sprintf("choice array %s packed=%v", k.name, packed)).Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
			}
		}
		for _, m := range Mods() {
			var fs []*Field
			if m.Ctl {
				fs = append(fs, F("ctl", Bool()))
			}
			f := F("c", in)
			f.Args = []*Expr{Name("k")}
			m.Do(f)
			b.Root(b.Struct(append(fs, F("k", UInt(8).With(Int(1), Int(0), Int(255), Int(9))), f)...), "choice field/"+m.Name)
		}
	}
	return s
}

// splits: every way to divide labels over cases with and without a field, and
// cases with many labels and choices with many cases.
func splits(ch *Chunk, th bool) {
	choice := func(d string, def string, sizes []int, field []bool, params []int64) {
		b := ch.B()
		var cs []Case
		v, n := int64(0), 0
		for i, size := range sizes {
			c := Case{Field: -1}
			for ; size > 0; size-- {
				v += 3
				c.Labels, c.Vals = append(c.Labels, fmt.Sprint(v)), append(c.Vals, v)
			}
			if field[i] {
				c.Field = n
				n++
			}
			cs = append(cs, c)
		}
		hasDef, dn := def != "", -1
		if def == "f" {
			dn = n
			n++
		}
		var fs []*Field
		for i := 0; i < n; i++ {
			fs = append(fs, F(fmt.Sprintf("f%d", i), Bit(1+i%13).With(Int(0), Int(1))))
		}
		r := b.Root(b.Choice([]Param{{"sel", UInt(16)}}, Name("sel"), cs, dn, hasDef, fs...), d+fmt.Sprintf(" default %q", def))
		for _, p := range params {
			r.P = append(r.P, map[string]int64{"sel": p})
		}
		r.Lim.Small = true
	}
	max := 4
	if th {
		max = 6
	}
	for k := 1; k <= max; k++ {
		var params []int64
		for i := int64(0); i <= int64(3*k)+1; i++ {
			params = append(params, i)
		}
		for cut := 0; cut < 1<<(k-1); cut++ {
			sizes := []int{1}
			for i := 0; i < k-1; i++ {
				if cut>>i&1 == 1 {
					sizes = append(sizes, 1)
				} else {
					sizes[len(sizes)-1]++
				}
			}
			for mask := 0; mask < 1<<len(sizes); mask++ {
				field := make([]bool, len(sizes))
				for i := range field {
					field[i] = mask>>i&1 == 1
				}
				for _, def := range []string{"", "f", "n"} {
					choice(fmt.Sprintf("cases of %v labels, fields %v", sizes, field), def, sizes, field, params)
				}
			}
		}
	}
	for _, n := range []int{5, 8, 9, 16, 17, 33, 70, 140, 300} {
		var all []int64
		ones, fields := make([]int, n), make([]bool, n)
		for i := range ones {
			ones[i], fields[i] = 1, i%3 != 1
			all = append(all, int64(3*i+3), int64(3*i+4))
		}
		for _, def := range []string{"", "f", "n"} {
			choice(fmt.Sprintf("%d labels of one case", n), def, []int{n}, []bool{true}, all)
			choice(fmt.Sprintf("%d labels between others", n), def, []int{1, n - 2, 1}, []bool{true, true, true}, all)
			choice(fmt.Sprintf("%d cases", n), def, ones, fields, all)
		}
	}
}

// throughCompound: the selector is a member or the result of a function of a
// compound parameter, whose type is a struct, a choice or a union, by its own
// name or that of a subtype.
func throughCompound(s *Set) {
	ch := s.Chunk("cmp", 24)
	lab := map[string][]string{"e": {"NEG", "MAX"}, "m": {"R", "X"}, "k": {"3", "9"}, "t": {"true", "false"}, "j": {"-7", "5"}}
	val := map[string][]int64{"e": {-7, 127}, "m": {1, 128}, "k": {3, 9}, "t": {1, 0}, "j": {-7, 5}}
	other := map[string]int64{"e": 1, "m": 2, "k": 4, "t": 1, "j": 0}
	ftype := func(b *B, m string) *Type {
		return map[string]*Type{"e": b.StdEnum(), "m": b.StdMask(), "k": UInt(8), "t": Bool(), "j": SInt(16)}[m]
	}
	for _, m := range []string{"e", "m", "k", "t", "j"} {
		for _, kind := range []string{"struct", "subtype", "subtype of subtype", "union", "choice", "inner", "inner subtype"} {
			for _, how := range []string{"field", "function", "typed labels", "constant labels"} {
				b := ch.B()
				ft := ftype(b, m)
				var dom []*Val
				for _, v := range append(append([]int64{}, val[m]...), other[m]) {
					dom = append(dom, Int(v))
				}
				mem := F(m, ft.With(dom...))
				fun := Func{ft.Text, "fn", m}
				var st *Type
				lead := []*Field{}
				var kargs []*Expr
				switch kind {
				case "union":
					st = b.Union(mem)
				case "choice":
					st = b.Choice([]Param{{"one", UInt(8)}}, Name("one"), []Case{{[]string{"1"}, []int64{1}, 0}}, -1, false, mem)
					kargs = []*Expr{Lit(1)}
				default:
					st = b.Struct(F("pad", Bit(1).With(Int(1))), mem)
				}
				st.Funcs = append(st.Funcs, fun)
				path := "p."
				switch kind {
				case "subtype":
					st = b.Sub(st)
				case "subtype of subtype":
					st = b.Sub(b.Sub(st))
				case "inner":
					st = b.Struct(F("in", st))
					path = "p.in."
				case "inner subtype":
					st = b.Struct(F("in", b.Sub(st)))
					path = "p.in."
				}
				get := path + m
				text := get
				if how == "function" {
					text = path + "fn()"
				}
				labels := append([]string{}, lab[m]...)
				if how == "typed labels" || how == "constant labels" {
					if m != "e" && m != "m" {
						continue
					}
					for i := range labels {
						if how == "constant labels" {
							n := b.name("LABEL")
							b.S.Raw += fmt.Sprintf("const %s %s = %s.%s;\n", ft.Name, n, ft.Name, labels[i])
							labels[i] = n
						} else {
							labels[i] = ft.Name + "." + labels[i]
						}
					}
				}
				sel := Ex(text, func(e *Env) int64 { return e.Get(get) })
				t := b.Choice([]Param{{"p", st}}, sel, []Case{{labels[:1], val[m][:1], 0}, {labels[1:], val[m][1:], 1}}, 2, m != "t", F("a", UInt(16).With(Int(0x1234))), F("b", Bit(5).With(Int(21))), F("c", Bit(1)))
				if m == "t" {
					t.Fields, t.Def = t.Fields[:2], -1
				}
				g := F("s", st)
				g.Args = kargs
				for _, arr := range []string{"", "[]", "packed[2]", "opt"} {
					f := F("c", t)
					f.Args = []*Expr{Name("s")}
					switch arr {
					case "[]":
						f.Arr = &Arr{}
					case "packed[2]":
						f.Arr = &Arr{Packed: true, Len: Lit(2)}
					case "opt":
						f.Opt = true
					}
					b.Root(b.Struct(append(lead, g, f)...), fmt.Sprintf("choice on %s of a %s parameter, %s%s", text, kind, how, arr)).Lim.Small = true
				}
			}
		}
	}
}

// labelNames: the labels of a choice on an enum or a bitmask are its items, also
// where other definitions have their names, and names of constants otherwise.
func labelNames(pkg func() *B) {
	type it struct {
		t     *Type
		items []Item // in the order that they are used
	}
	forms := []string{"1", "m", "M", "e", "E"}
	n := 0
	for _, k := range []string{"enum", "enumU", "mask", "subtype", "subtype of subtype"} {
		for _, other := range []string{"const", "const of it", "const of another", "type", "enum with its items", "bitmask with its items", "field", "function", "item of far", "constant label"} {
			b := pkg()
			var x it
			mk := func(t *Type) it { return it{t, t.Items} }
			switch k {
			case "enum", "subtype":
				x = mk(b.StdEnum())
			case "enumU", "subtype of subtype":
				x = mk(b.StdEnumU())
			case "mask":
				x = mk(b.StdMask())
			}
			raw := func(f string, a ...any) { b.S.Raw += fmt.Sprintf(f, a...) }
			label, extra := "", Item{}
			switch other {
			case "const":
				for i, c := range x.items {
					raw("const uint16 %s = %d;\n", c.Name, 20+i)
				}
			case "const of it":
				for i, c := range x.items {
					raw("const %s %s = %s.%s;\n", x.t.Name, c.Name, x.t.Name, x.items[(i+1)%len(x.items)].Name)
				}
			case "const of another":
				raw("enum uint8 Other { OA = 7, OB = 9 };\n")
				for i, c := range x.items {
					raw("const Other %s = Other.%s;\n", c.Name, []string{"OA", "OB"}[i%2])
				}
			case "type":
				for i, c := range x.items {
					raw([]string{"subtype uint8 %s;\n", "struct %s { uint8 a; };\n", "enum uint8 %s { IA, IB };\n", "union %s { uint8 a; };\n"}[i%4], c.Name)
				}
			case "enum with its items", "bitmask with its items":
				w := map[bool]string{true: "enum", false: "bitmask"}[other[0] == 'e']
				for _, name := range []string{"AOther", "ZOther"} {
					raw("%s uint8 %s {", w, name)
					for i, c := range x.items {
						raw(" %s = %d,", c.Name, 1<<((i+1)%len(x.items)))
					}
					raw(" };\n")
				}
			case "item of far":
				b.S.Imports = append(b.S.Imports, b.S.Pkg+"far.*")
				text := "package " + b.S.Pkg + "far;\n"
				for i, c := range x.items {
					text += fmt.Sprintf("const uint8 %s = %d;\n", c.Name, 30+i)
				}
				b.set.Files[b.S.Pkg+"far.zs"] = text
			case "constant label":
				if x.t.K != KEnum && x.t.K != KBitmask {
					continue
				}
				last := x.items[len(x.items)-1]
				label, extra = "LABEL", last
				raw("const %s LABEL = %s.%s;\n", x.t.Name, x.t.Name, last.Name)
			}
			t := x.t
			for i := 0; i < len(strings.Split(k, "subtype"))-1; i++ {
				t = b.Sub(t)
			}
			use := x.items
			if label != "" {
				use = use[:len(use)-1]
			}
			var labels []string
			var vals []int64
			for _, c := range use[:2] {
				labels, vals = append(labels, c.Name), append(vals, c.Val)
			}
			if label != "" {
				labels, vals = append(labels, label), append(vals, extra.Val)
			} else {
				labels, vals = append(labels, use[2].Name), append(vals, use[2].Val)
			}
			for i, form := range forms {
				n++
				cs, nf := mkCases(form, labels, vals)
				def, hasDef := -1, i%2 == 0
				if i%4 == 0 {
					def = nf
					nf++
				}
				fs := branchFields(b, nf, n)
				if other == "field" {
					for j, f := range fs {
						f.Name = x.items[j%len(x.items)].Name
						if j >= len(x.items) {
							f.Name += "X"
						}
					}
				}
				c := b.Choice([]Param{{"sel", t}}, Name("sel"), cs, def, hasDef, fs...)
				if other == "function" {
					for j, o := range x.items {
						c.Funcs = append(c.Funcs, Func{"uint8", o.Name, fmt.Sprint(40 + j)})
					}
				}
				r := b.Root(c, fmt.Sprintf("labels of %s with %s of their names, form %s", k, other, form))
				for _, o := range x.items {
					r.P = append(r.P, map[string]int64{"sel": o.Val})
				}
			}
		}
	}
}

// C08: unions.
func C08(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("un", 40)
	arrs := []string{"", "[]", "[2]", "packed[]"}
	for _, sh := range Leaves() {
		for _, a := range arrs {
			b := ch.B()
			f := sh.Make(b, "a")
			g := sh.Make(b, "c")
			for _, x := range []*Field{f, g} {
				switch a {
				case "[]":
					x.Arr = &Arr{}
				case "[2]":
					x.Arr = &Arr{Len: Lit(2)}
				case "packed[]":
					x.Arr = &Arr{Packed: true}
				}
			}
			u := b.Union(f, F("b", Bit(4)), g)
			r := b.Root(u, "union "+sh.Name+a)
			r.Lim.Small = a != ""
		}
	}
	// every number of fields up to 5, then around the step of the tag's size
	counts := []int{1, 2, 3, 4, 5, 127, 128, 129, 130}
	for _, n := range counts {
		b := ch.B()
		var fs []*Field
		for i := 0; i < n; i++ {
			f := Pick(Leaves(), "uint8", "bit:3", "string", "bool")[i%4].Make(b, fmt.Sprintf("f%d", i))
			fs = append(fs, f)
		}
		u := b.Union(fs...)
		b.Root(u, fmt.Sprintf("union of %d", n)).Lim.Small = n > 10
		f := F("us", u)
		f.Arr = &Arr{}
		b.Root(b.Struct(f), fmt.Sprintf("array of union of %d", n)).Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
	}
	// modifiers, arrays, nesting
	b := ch.B()
	u := b.StdUnion()
	uu := b.Union(F("u", u), F("st", b.StdStruct()), F("k", UInt(8)))
	for _, m := range Mods() {
		var fs []*Field
		if m.Ctl {
			fs = append(fs, F("ctl", Bool()))
		}
		f := F("u", uu)
		m.Do(f)
		b.Root(b.Struct(append(fs, f, F("z", Bit(1)))...), "union field/"+m.Name)
	}
	for _, k := range arrKinds() {
		for _, packed := range []bool{false, true} {
			for _, t := range []*Type{u, uu} {
				f := F("us", t)
				f.Arr = &Arr{Len: k.len, Packed: packed}
				r := b.Root(b.Struct(append(k.lead(b), f)...), fmt.Sprintf("union array %s%s packed=%v", t.Name, k.name, packed))
				r.Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
			}
		}
	}
	// functions of unions and choices, used inside and outside
	for i, arr := range []string{"", "[2]", "packed[]", "opt"} {
		for _, kind := range []Kind{KUnion, KChoice} {
			b := ch.B()
			p := []Param{{"w", UInt(8)}}
			w := func(e *Env) int64 { return e.Get("w")&7 + 1 }
			t := &Type{K: kind, Name: b.name("FU"), Params: p, Fields: []*Field{F("x", BitDyn(Ex("wid()", w))), F("y", UInt(8)), F("z", String())},
				Funcs: []Func{{"uint8", "wid", "(w & 7) + 1"}, {"bool", "big", "w > 3"}, {"string", "txt", "\"txt\""}}}
			if kind == KChoice {
				t.Sel, t.Cases, t.Def = Name("w"), []Case{{[]string{"3"}, []int64{3}, 0}, {[]string{"9"}, []int64{9}, 1}, {[]string{"64"}, []int64{64}, 2}}, -1
			}
			b.add(t)
			f := F("u", t)
			f.Args = []*Expr{Name("n")}
			g := F("u", t)
			g.Args = []*Expr{Name("n")}
			switch arr {
			case "[2]":
				g.Arr = &Arr{Len: Lit(2)}
			case "packed[]":
				g.Arr = &Arr{Packed: true}
			case "opt":
				g.Opt = true
			}
			b.Root(b.Struct(F("n", UInt(8).With(Int(3), Int(9), Int(64))), g), fmt.Sprintf("%v with functions%s %d", kind, arr, i)).Lim.Small = true
			if arr == "" {
				c := F("c", Bit(3))
				c.Cond = Ex("u.big()", func(e *Env) int64 { return b2i(e.Get("n") > 3) })
				l := F("l", Bit(2))
				l.Arr = &Arr{Len: Ex("u.wid()", func(e *Env) int64 { return e.Get("n")&7 + 1 })}
				b.Root(b.Struct(F("n", UInt(8).With(Int(3), Int(9), Int(64))), f, c, l), fmt.Sprintf("%v functions called", kind)).Lim.Small = true
			}
		}
	}
	// parameterised union
	pu := b.add(&Type{K: KUnion, Name: b.name("PU"), Params: []Param{{"w", UInt(8)}}, Fields: []*Field{F("x", BitDyn(Name("w"))), F("y", UInt(8))}})
	f := F("u", pu)
	f.Args = []*Expr{Name("n")}
	b.Root(b.Struct(F("n", UInt(8).With(Int(3), Int(9), Int(64))), f), "parameterised union")
	return s
}

// C10: packed arrays of compounds.
func C10(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("pc", 40)
	arr := func(b *B, t *Type, desc string, lims ...Lim) {
		for i, k := range arrKinds() {
			if i == 1 || i == 2 || i == 5 {
				continue
			}
			f := F("a", t)
			f.Arr = &Arr{Len: k.len, Packed: true}
			r := b.Root(b.Struct(append(k.lead(b), f, F("z", Bit(3).With(Int(5))))...), "packed "+desc+k.name)
			r.Lim = Lim{MaxLen: 3, LenFirst: 3, Small: true}
		}
		f := F("a", t)
		f.Arr = &Arr{Packed: true}
		r := b.Root(b.Struct(F("y", Bit(1).With(Int(1))), f, F("z", Bit(3).With(Int(5)))), "packed "+desc+"[pattern]")
		r.Lim = Lim{Lens: []int{9, 3, 12}, Pat: true, Pats: 3}
	}
	for _, c := range Cross(Leaves(), Mods()) {
		b := ch.B()
		arr(b, b.Struct(FieldsOf(b, c)...), "struct{"+desc(c)+"}")
	}
	// two and three fields
	p := Cross(Pick(Leaves(), "uint8", "int:7", "varuint", "string", "enum", "struct", "union"), pickMods("", "opt"))
	for _, x := range p {
		for _, y := range p {
			b := ch.B()
			arr(b, b.Struct(FieldsOf(b, x, y)...), "struct{"+desc(x, y)+"}")
		}
	}
	// array fields inside packed elements
	for _, sh := range Leaves() {
		for _, m := range pickMods("", "opt", "al8", "if") {
			for _, packed := range []bool{false, true} {
				for _, k := range arrKinds()[:4:4] {
					if k.name == "[0]" || k.name == "[1]" || (k.name == "[3]" && m.Name != "") {
						continue
					}
					b := ch.B()
					var fs []*Field
					if m.Ctl {
						fs = append(fs, F("ctl", Bool()))
					}
					in := arrField(b, sh, "i", k, packed)
					m.Do(in)
					t := b.Struct(append(fs, in, F("u", UInt(16).With(Int(300), Int(301))))...)
					f := F("a", t)
					f.Arr = &Arr{Packed: true}
					r := b.Root(b.Struct(f), fmt.Sprintf("packed struct{%s%s/%s packed=%v}", sh.Name, k.name, m.Name, packed))
					r.Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
				}
			}
		}
	}
	// dynamic widths and parameters inside packed elements
	{
		b := ch.B()
		n := F("n", UInt(8).With(Int(7), Int(16), Int(1)))
		arr(b, b.Struct(n, F("v", BitDyn(Name("n")))), "struct{bit<n>}")
		arr(b, b.Struct(F("n", UInt(8).With(Int(7), Int(16), Int(2))), F("v", IntDyn(Name("n")))), "struct{int<n>}")
		ps := b.PStruct([]Param{{"p", UInt(8)}}, F("v", BitDyn(Name("p"))), func() *Field {
			f := F("w", UInt(16))
			f.Cond = Ex("p > 3", func(e *Env) int64 { return b2i(e.Get("p") > 3) })
			return f
		}())
		for _, arg := range []*Expr{Lit(5), Name("k"), Ex("k + 1", func(e *Env) int64 { return e.Get("k") + 1 }), Ex("@index + 1", func(e *Env) int64 { return int64(e.Idx) + 1 })} {
			f := F("a", ps)
			f.Args = []*Expr{arg}
			f.Arr = &Arr{Packed: true}
			r := b.Root(b.Struct(F("k", UInt(8).With(Int(4), Int(3))), f), "packed PS("+arg.Text+")[]")
			r.Lim = Lim{MaxLen: 3, LenFirst: 3, Small: true}
		}
	}
	// choices and unions, alone and inside structs
	for i, sel := range selectors() {
		for _, form := range []string{"1", "m", "e"} {
			for _, def := range []string{"", "f", "n"} {
				b := ch.B()
				t := stdChoice(b, sel, form, def, i)
				all := append(append([]int64{}, sel.vals...), sel.other...)
				var dom []*Val
				for _, v := range all {
					dom = append(dom, Int(v))
				}
				f := F("c", t)
				f.Args = []*Expr{Name("k")}
				arr(b, b.Struct(F("k", sel.t(b).With(dom...)), f), fmt.Sprintf("struct{choice on %s %s %q}", sel.name, form, def))
			}
		}
	}
	{
		b := ch.B()
		// a choice that has only a default
		t := b.Choice([]Param{{"sel", UInt(8)}}, Name("sel"), nil, 0, true, F("d", UInt(32)))
		f := F("c", t)
		f.Args = []*Expr{Name("k")}
		arr(b, b.Struct(F("k", UInt(8)), f), "struct{choice default only}")
		u := b.StdUnion()
		arr(b, u, "union")
		arr(b, b.Union(F("a", UInt(32)), F("st", b.StdStruct()), F("u", u), F("e", b.StdEnum())), "union of compounds")
		ua := b.Union(func() *Field { f := F("xs", UInt(16)); f.Arr = &Arr{}; return f }(), F("y", UInt(16)), func() *Field { f := F("ss", String()); f.Arr = &Arr{Packed: true}; return f }())
		arr(b, ua, "union of arrays")
		in := b.Struct(F("u", u), F("o", UInt(8)))
		arr(b, b.Struct(F("i", in), F("j", in)), "struct of struct of union")
		arr(b, b.Struct(), "empty struct")
	}
	return s
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
