package fam

import (
	"fmt"
	"math"
	"strings"

	. "mc/zs"
)

// TItem is an expected item of an enum or bitmask.
type TItem struct {
	Name string
	Val  int64
}

// TableItem is an enum or bitmask to look at through its Go interface.
type TableItem struct {
	Name   string // registry prefix
	GoName string
	Text   string
	Items  []TItem
	Mask   bool
}

type tabs struct {
	set   *Set
	items []*TableItem
	text  map[string]*strings.Builder
	pkg   string
	n, k  int
	head  string
}

func (t *tabs) cur() *strings.Builder {
	if t.pkg == "" || t.k >= 60 {
		t.k = 0
		t.n++
		t.pkg = fmt.Sprintf("tab%d", t.n)
		b := &strings.Builder{}
		fmt.Fprintf(b, "package %s;\n%s", t.pkg, t.head)
		t.text[t.pkg] = b
	}
	t.k++
	return t.text[t.pkg]
}

// add declares one enum or bitmask; texts are the value expressions ("" for none).
func (t *tabs) add(mask bool, base string, names, texts []string, vals []int64) {
	b := t.cur()
	i := len(t.items)
	kw, name := "enum", fmt.Sprintf("Tab%d", i)
	if mask {
		kw = "bitmask"
	}
	var parts []string
	it := &TableItem{Name: t.pkg + "." + name, GoName: name, Mask: mask}
	for j, n := range names {
		x := n
		if texts[j] != "" {
			x += " = " + strings.ReplaceAll(texts[j], "SELF", name)
		}
		parts = append(parts, x)
		it.Items = append(it.Items, TItem{n, vals[j]})
	}
	it.Text = fmt.Sprintf("%s %s %s { %s }", kw, base, name, strings.Join(parts, ", "))
	fmt.Fprintf(b, "%s;\n", it.Text)
	var consts []string
	for _, n := range names {
		consts = append(consts, "$."+name+goItem(mask, n))
	}
	reg := func(k, e string) {
		t.set.Vals = append(t.set.Vals, RegVal{Name: it.Name + "/" + k, Pkg: t.pkg, Expr: e})
	}
	reg("consts", "[]any{"+strings.Join(consts, ", ")+"}")
	if !mask {
		reg("values", "$."+name+"Values()")
		reg("strings", "$."+name+"Strings")
		reg("parse", "$."+name+"String")
	}
	t.items = append(t.items, it)
}

// goItem is how generated code names an item.
func goItem(mask bool, n string) string {
	if mask {
		return strings.ToUpper(n[:1]) + n[1:]
	}
	var r strings.Builder
	up := true
	for _, c := range strings.ToLower(n) {
		switch {
		case c == '_':
			up = true
		case up:
			r.WriteString(strings.ToUpper(string(c)))
			up = c >= '0' && c <= '9'
		default:
			r.WriteRune(c)
			up = c >= '0' && c <= '9'
		}
	}
	if x := r.String(); x == "String" || x == "Strings" || x == "Values" {
		return x + "_" // there are functions of these names
	}
	return r.String()
}

// patterns enumerates every assignment of explicit values or none to n items;
// next gives the value of an item without one.
func patterns(n int, explicit []int64, first int64, next func(int64) int64, lo, hi int64, f func(texts []string, vals []int64)) {
	texts, vals := make([]string, n), make([]int64, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]string{}, texts...), append([]int64{}, vals...))
			return
		}
		try := func(t string, v int64) {
			if v < lo || v > hi {
				return
			}
			for _, w := range vals[:i] {
				if w == v {
					return // a value twice is no valid enum
				}
			}
			texts[i], vals[i] = t, v
			rec(i + 1)
		}
		if i == 0 {
			try("", first)
		} else if vals[i-1] < math.MaxInt64 {
			try("", next(vals[i-1]))
		}
		for _, v := range explicit {
			try(fmt.Sprint(v), v)
		}
	}
	rec(0)
}

func nextBit(v int64) int64 {
	n := int64(1)
	for n <= v {
		if n >= 1<<62 {
			return -1
		}
		n <<= 1
	}
	return n
}

type intBase struct {
	t      *Type
	lo, hi int64
}

func intBases() []intBase {
	var r []intBase
	u := func(t *Type, bits int) {
		hi := int64(math.MaxInt64) // larger literals are refused
		if bits < 63 {
			hi = 1<<bits - 1
		}
		r = append(r, intBase{t, 0, hi})
	}
	s := func(t *Type, bits int) {
		lo := int64(-1) << (bits - 1)
		if bits == 64 {
			lo++ // its literal is refused
		}
		r = append(r, intBase{t, lo, 1<<(bits-1) - 1})
	}
	for _, n := range []int{8, 16, 32, 64} {
		u(UInt(n), n)
		s(SInt(n), n)
	}
	for _, n := range []int{1, 2, 5, 7, 8, 9, 15, 31, 32, 33, 63, 64} {
		u(Bit(n), n)
		if n > 1 {
			s(IntN(n), n)
		}
	}
	vs := func(n string, bits int) {
		m := int64(1)<<bits - 1
		r = append(r, intBase{Var(n), -m, m})
	}
	vu := func(n string, bits int) { u(Var(n), bits) }
	vs("varint16", 14)
	vs("varint32", 28)
	vs("varint64", 56)
	r = append(r, intBase{Var("varint"), -math.MaxInt64, math.MaxInt64})
	vu("varuint16", 15)
	vu("varuint32", 29)
	vu("varuint64", 57)
	vu("varuint", 64)
	r = append(r, intBase{Var("varsize"), 0, 1<<31 - 1})
	return r
}

var tabNames = []string{"A", "B", "C", "D", "E"}

// C21 builds enums and bitmasks of every numbering pattern.
func C21(th bool) (*Set, []*TableItem) {
	s := NewSet()
	t := &tabs{set: s, text: map[string]*strings.Builder{}}
	s.Files["tabfar.zs"] = "package tabfar;\nconst int16 FAR = 40;\nsubtype bit:6 FarSub;\nenum uint8 FarEnum { P = 3, Q };\nbitmask uint8 FarMask { R, S };\n"
	t.head = "import tabfar.*;\nconst int8 KK = 7;\nsubtype uint8 Sub8;\nsubtype int:9 Sub9;\nsubtype Sub9 SubSub;\nsubtype varint32 SubVar;\nsubtype FarSub SubFar;\n" +
		"enum int8 Other { N = -4, M, A = 11, B };\nbitmask uint8 OtherMask { A = 4, B };\n"
	plus1 := func(v int64) int64 { return v + 1 }
	deep := 3
	if th {
		deep = 4
	}
	for n := 1; n <= deep; n++ {
		patterns(n, []int64{0, 1, 5, 200}, 0, plus1, 0, 255, func(x []string, v []int64) { t.add(false, "uint8", tabNames[:n], x, v) })
		patterns(n, []int64{-3, -1, 0, 126}, 0, plus1, -128, 127, func(x []string, v []int64) { t.add(false, "int8", tabNames[:n], x, v) })
		patterns(n, []int64{0, 1, 2, 6, 64}, 1, nextBit, 0, 255, func(x []string, v []int64) { t.add(true, "uint8", tabNames[:n], x, v) })
	}
	if !th {
		patterns(4, []int64{1, 5}, 0, plus1, 0, 255, func(x []string, v []int64) { t.add(false, "uint8", tabNames[:4], x, v) })
	}
	// every underlying type at its bounds
	for _, b := range intBases() {
		n := 2
		if th {
			n = 3
		}
		patterns(n, []int64{b.lo, b.hi, b.hi - 1}, 0, plus1, b.lo, b.hi, func(x []string, v []int64) { t.add(false, b.t.Text, tabNames[:n], x, v) })
		if b.lo == 0 {
			top := int64(1)
			for top <= b.hi/2 {
				top <<= 1
			}
			patterns(n, []int64{0, top, b.hi}, 1, nextBit, 0, b.hi, func(x []string, v []int64) { t.add(true, b.t.Text, tabNames[:n], x, v) })
		}
	}
	for _, sub := range []string{"Sub8", "Sub9", "SubSub", "SubVar", "FarSub", "SubFar"} {
		t.add(false, sub, tabNames[:3], []string{"", "9", ""}, []int64{0, 9, 10})
		if sub == "Sub8" || sub == "FarSub" || sub == "SubFar" {
			t.add(true, sub, tabNames[:3], []string{"", "4", ""}, []int64{1, 4, 8})
		}
	}
	// every way to write a value
	forms := []struct {
		t string
		v int64
	}{{"0x1F", 31}, {"0X0a", 10}, {"017", 15}, {"101b", 5}, {"KK", 7}, {"FAR", 40}, {"KK + 1", 8}, {"(KK + FAR) * 2", 94}, {"KK > 3 ? 20 : 30", 20},
		{"valueof(Other.M)", 253 - 256}, {"valueof(FarEnum.Q)", 4}, {"valueof(OtherMask.B)", 8}, {"valueof(FarMask.S)", 2}, {"numbits(200)", 8}, {"1 << 4", 16}, {"~(-18)", 17}, {"+6", 6}}
	for _, f := range forms {
		t.add(false, "int8", tabNames[:3], []string{"", f.t, ""}, []int64{0, f.v, f.v + 1})
		t.add(false, "int16", tabNames[:2], []string{f.t, ""}, []int64{f.v, f.v + 1})
		if f.v > 0 {
			t.add(true, "uint8", tabNames[:3], []string{"", f.t, ""}, []int64{1, f.v, nextBit(f.v)}) // 128 fits
		}
	}
	// values that name items of the same enum, also when other enums have items of that name
	t.add(false, "uint8", tabNames[:4], []string{"2", "A + 4", "B * 2", ""}, []int64{2, 6, 12, 13})
	t.add(false, "uint8", tabNames[:3], []string{"", "", "valueof(SELF.B) + 4"}, []int64{0, 1, 5})
	t.add(false, "uint8", tabNames[:4], []string{"20", "A - 10", "(A + B) / 2", "A | B"}, []int64{20, 10, 15, 30})
	// names
	nameSets := [][]string{{"RED", "DARK_RED", "BLUE"}, {"red", "Green", "bLUE"}, {"x", "Y", "zZ"}, {"V_1", "V_2", "V_12"}, {"a_b_c", "A1", "A2B"},
		{"NONE", "STRING", "VALUES"}, {"nil", "yes", "type"}, {"ERROR", "Value", "Scan"}, {"String", "int8_t", "fmt"}, {"init", "main", "len"}, {"A_", "B__C", "D_E_"}}
	for _, ns := range nameSets {
		if ns[0] == "A_" {
			continue // the Go names of such items are not documented; c18 compiles them
		}
		t.add(false, "uint16", ns, []string{"", "7", ""}, []int64{0, 7, 8})
		if ns[0] != "nil" && ns[0] != "x" {
			t.add(true, "uint16", ns, []string{"", "8", ""}, []int64{1, 8, 16})
		}
	}
	many := 300
	var ns, xs []string
	var vs []int64
	for i := 0; i < many; i++ {
		ns, xs, vs = append(ns, fmt.Sprintf("N%d", i)), append(xs, ""), append(vs, int64(i))
	}
	t.add(false, "uint16", ns, xs, vs)
	ns, xs, vs = nil, nil, nil
	for i := 0; i < 63; i++ {
		ns, xs, vs = append(ns, fmt.Sprintf("B%d", i)), append(xs, ""), append(vs, int64(1)<<i)
	}
	t.add(true, "bit:63", ns, xs, vs)
	t.add(true, "varuint", ns, xs, vs)
	for p, b := range t.text {
		s.Files[p+".zs"] = b.String()
	}

	// the wire form: each underlying type as field, in arrays and packed arrays, as selector
	ch := s.Chunk("en", 12)
	ch.Setup = func(b *B) {
		b.S.Imports = []string{"tabfar.*"}
		b.S.Raw += "subtype uint8 Sub8;\nsubtype int:9 Sub9;\nsubtype Sub9 SubSub;\nsubtype varint32 SubVar;\nsubtype FarSub SubFar;\n"
	}
	bases := intBases()
	sub := func(n string, t *Type, lo, hi int64) {
		c := *t
		c.Text = n
		bases = append(bases, intBase{&c, lo, hi})
	}
	sub("Sub8", UInt(8), 0, 255)
	sub("Sub9", IntN(9), -256, 255)
	sub("SubSub", IntN(9), -256, 255)
	sub("SubVar", Var("varint32"), -1<<28+1, 1<<28-1)
	sub("FarSub", Bit(6), 0, 63)
	sub("SubFar", Bit(6), 0, 63)
	for _, ib := range bases {
		mk := func(b *B, mask bool) *Type {
			if mask {
				it := []Item{{"P", "", 1}}
				if ib.hi > 1 {
					it = append(it, Item{"Q", "", 2}, Item{"Z", fmt.Sprint(ib.hi), ib.hi})
				}
				return b.Bitmask(ib.t, it...)
			}
			it := []Item{{"LO", fmt.Sprint(ib.lo), ib.lo}, {"NEXT", "", ib.lo + 1}}
			if ib.hi/2 > ib.lo+1 {
				it = append(it, Item{"MID", fmt.Sprint(ib.hi / 2), ib.hi / 2}, Item{"HI", fmt.Sprint(ib.hi), ib.hi})
			}
			return b.Enum(ib.t, it...)
		}
		for _, mask := range []bool{false, true} {
			if mask && ib.lo != 0 {
				continue
			}
			b := ch.B()
			e := mk(b, mask)
			e2 := b.Sub(e)
			d := fmt.Sprintf("%s mask=%v", ib.t.Text, mask)
			b.Root(b.Struct(F("e", e), F("z", Bit(3)), F("e2", e2)), d+" fields")
			arr := func(t *Type, packed bool) *Field {
				f := F("l", t)
				f.Arr = &Arr{Packed: packed}
				return f
			}
			for _, packed := range []bool{false, true} {
				r := b.Root(b.Struct(arr(e, packed), F("z", Bit(1))), fmt.Sprintf("%s array packed=%v", d, packed))
				r.Lim.MaxLen = 3
				b.Root(b.Struct(arr(e2, packed)), fmt.Sprintf("%s array of a subtype packed=%v", d, packed))
			}
			in := b.Struct(F("e", e), F("n", Bit(3)))
			b.Root(b.Struct(arr(in, true)), d+" in packed structs")
			o := F("o", e)
			o.Opt = true
			b.Root(b.Struct(o, F("z", Bit(3))), d+" optional")
		}
	}
	return s, t.items
}

func init() {
	families["C21"] = func(th bool) *Set { s, _ := C21(th); return s }
}
