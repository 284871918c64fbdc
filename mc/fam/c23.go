package fam

import (
	"fmt"
	"math"
	"strings"

	. "mc/zs"
)

func init() { families["C23"] = C23 }

type defCase struct {
	kind string
	mk   func(b *B) *Type
	text string // $E, $M: the enum and bitmask
	val  *Val
}

const defRaw = "const int8 KK = 7;\nconst string KS = \"kk\";\nconst bool KB = true;\nconst float64 KF = 2.5;\n"

func defCases(th bool) []defCase {
	var r []defCase
	add := func(kind string, mk func(b *B) *Type, text string, v *Val) {
		r = append(r, defCase{kind, mk, text, v})
	}
	for _, ib := range intBases() {
		t := ib.t
		mk := func(*B) *Type { return t }
		for _, x := range []int64{ib.lo, ib.hi, ib.hi / 2} {
			add(t.Text, mk, fmt.Sprint(x), Int(x))
		}
		if ib.lo < 0 {
			add(t.Text, mk, "-1", Int(-1))
		}
		if ib.hi >= 127 {
			for _, f := range []struct {
				t string
				v int64
			}{{"0x1F", 31}, {"017", 15}, {"101b", 5}, {"KK", 7}, {"FAR", 40}, {"KK + 1", 8}, {"(KK + FAR) * 2", 94}, {"KK > 3 ? 20 : 30", 20}, {"valueof(FarEnum.Q)", 4}, {"numbits(200)", 8}, {"1 << 4", 16}} {
				add(t.Text, mk, f.t, Int(f.v))
			}
		}
	}
	sub := func(n string, t *Type) func(*B) *Type {
		c := *t
		c.Text = n
		return func(*B) *Type { return &c }
	}
	for _, f := range []struct {
		t string
		v int64
	}{{"9", 9}, {"KK", 7}, {"KK * 2 + 1", 15}} {
		add("Sub8", sub("Sub8", UInt(8)), f.t, Int(f.v))
		add("SubSub", sub("SubSub", IntN(9)), f.t, Int(f.v))
		add("SubVar", sub("SubVar", Var("varint32")), f.t, Int(f.v))
		add("FarSub", sub("FarSub", Bit(6)), f.t, Int(f.v))
		add("SubFar", sub("SubFar", Bit(6)), f.t, Int(f.v))
	}
	for _, f := range []struct {
		t string
		v int64
	}{{"true", 1}, {"false", 0}, {"KB", 1}, {"!KB", 0}, {"KK > 3", 1}, {"KB && KK == 8", 0}} {
		add("bool", func(*B) *Type { return Bool() }, f.t, Int(f.v))
	}
	for _, f := range []struct {
		t string
		v float64
	}{{"1.5", 1.5}, {"-0.25", -0.25}, {"1", 1}, {"-7", -7}, {"0.1", 0.1}, {"1.5e3", 1500}, {"KF", 2.5}, {"KF * 2.0 + 1.0", 6}, {"KK", 7}, {"2.0f", 2}, {"1e-3", 0.001}} {
		f32 := Int(int64(math.Float32bits(float32(f.v))))
		if f.v != 0.1 && f.v != 0.001 { // rounded when written
			add("float16", func(*B) *Type { return F16() }, f.t, f32)
		}
		add("float32", func(*B) *Type { return F32() }, f.t, f32)
		add("float64", func(*B) *Type { return F64() }, f.t, Int(int64(math.Float64bits(f.v))))
	}
	for _, f := range [][2]string{{`"x"`, "x"}, {`""`, ""}, {`"a b\"c"`, `a b"c`}, {`"l1\nl2\t\\"`, "l1\nl2\t\\"}, {"KS", "kk"}, {`KS + "1"`, "kk1"}, {`"a" + "b" + KS`, "abkk"}, {`"%s {{x}}"`, "%s {{x}}"}, {"\"caf\u00e9\"", "caf\u00e9"}, {"\"`\"", "`"}} {
		add("string", func(*B) *Type { return String() }, f[0], &Val{S: []byte(f[1])})
		add("SubStr", sub("SubStr", String()), f[0], &Val{S: []byte(f[1])})
	}
	farE := &Type{K: KEnum, Name: "FarEnum", Text: "FarEnum", Pkg: "dffar", Base: UInt(8), Items: []Item{{"P", "3", 3}, {"Q", "", 4}}}
	farM := &Type{K: KBitmask, Name: "FarMask", Text: "FarMask", Pkg: "dffar", Base: UInt(8), Items: []Item{{"R", "", 1}, {"S", "", 2}}}
	en := func(b *B) *Type { return b.StdEnum() }
	ma := func(b *B) *Type { return b.StdMask() }
	sen := func(b *B) *Type { return b.Sub(b.StdEnum()) }
	sma := func(b *B) *Type { return b.Sub(b.StdMask()) }
	for _, mk := range []func(*B) *Type{en, sen} {
		add("enum", mk, "$E.NEG", Int(-7))
		add("enum", mk, "$E.NEXT", Int(-6))
		add("enum", mk, "$E.ONE", Int(1))
		add("enum", mk, "KK > 3 ? $E.MAX : $E.ONE", Int(127))
	}
	for _, mk := range []func(*B) *Type{ma, sma} {
		add("bitmask", mk, "$M.R", Int(1))
		add("bitmask", mk, "$M.X", Int(128))
		add("bitmask", mk, "$M.R | $M.W", Int(3))
	}
	add("far enum", func(*B) *Type { return farE }, "FarEnum.Q", Int(4))
	add("far enum", func(*B) *Type { return farE }, "FarEnum.P", Int(3))
	add("far enum", sub("FarSubEnum", farE), "FarEnum.Q", Int(4))
	add("far enum", sub("FarSubEnum", farE), "FarSubEnum.Q", Int(4))
	add("far bitmask", func(*B) *Type { return farM }, "FarMask.S", Int(2))
	return r
}

// C23: default values.
func C23(th bool) *Set {
	s := NewSet()
	s.Files["dffar.zs"] = "package dffar;\nconst int16 FAR = 40;\nsubtype bit:6 FarSub;\nenum uint8 FarEnum { P = 3, Q };\nbitmask uint8 FarMask { R, S };\nsubtype FarEnum FarSubEnum;\n" +
		"struct FarDef { uint8 a = 9; string b = \"far\"; uint8 c; };\n"
	ch := s.Chunk("df", 40)
	ch.Setup = func(b *B) {
		b.S.Imports = []string{"dffar.*"}
		b.S.Raw += defRaw + "subtype uint8 Sub8;\nsubtype int:9 Sub9;\nsubtype Sub9 SubSub;\nsubtype varint32 SubVar;\nsubtype FarSub SubFar;\nsubtype string SubStr;\n"
	}
	field := func(b *B, c defCase, name string) *Field {
		f := F(name, c.mk(b))
		t := c.text
		if strings.Contains(t, "$E") {
			t = strings.ReplaceAll(t, "$E", b.StdEnum().Name)
		}
		if strings.Contains(t, "$M") {
			t = strings.ReplaceAll(t, "$M", b.StdMask().Name)
		}
		f.Init, f.InitV = t, c.val
		return f
	}
	cases := defCases(th)
	for _, c := range cases {
		b := ch.B()
		r := b.Root(b.Struct(field(b, c, "d"), F("z", Bit(3))), fmt.Sprintf("%s = %s", c.kind, c.text))
		r.Max = 30
	}
	// modifiers and nesting, for one case of each kind
	byKind := map[string]bool{}
	var few []defCase
	for _, c := range cases {
		if !byKind[c.kind] || th && c.kind != "string" {
			byKind[c.kind] = true
			few = append(few, c)
		}
	}
	cond := Ex("n > 1", func(e *Env) int64 { return b2i(e.Get("n") > 1) })
	for _, c := range few {
		mods := []func(f *Field){
			func(f *Field) { f.Align = 16 },
			func(f *Field) { f.Opt = true },
			func(f *Field) { f.Cond = cond },
		}
		for i, m := range mods {
			b := ch.B()
			f := field(b, c, "d")
			m(f)
			r := b.Root(b.Struct(F("n", Bit(2)), f, F("z", Bit(3))), fmt.Sprintf("%s = %s modifier %d", c.kind, c.text, i))
			r.Max = 30
		}
		// nested: in structs, subtypes of structs, unions, choices; beside arrays
		b := ch.B()
		in := b.Struct(field(b, c, "d"), F("z", Bit(2)))
		in2 := b.Struct(F("y", Bit(1)), F("i", in), field(b, c, "e"))
		subIn := b.Sub(in)
		u := b.Union(F("i", in), F("j", UInt(8)), F("k", subIn))
		arr := F("l", in)
		arr.Arr = &Arr{}
		opt := F("o", in)
		opt.Opt = true
		sel := &Type{K: KChoice, Name: b.name("Ch"), Params: []Param{{Name: "s", T: UInt(8)}}, Sel: Name("s"), Def: 2, HasDef: true,
			Fields: []*Field{F("a", in), F("b", Bit(4)), F("c", in2)},
			Cases:  []Case{{Labels: []string{"0"}, Vals: []int64{0}, Field: 0}, {Labels: []string{"1"}, Vals: []int64{1}, Field: 1}}}
		b.add(sel)
		chf := F("h", sel)
		chf.Args = []*Expr{Name("n")}
		for i, f := range [][]*Field{
			{F("a", in)}, {F("a", in2)}, {F("a", subIn)}, {F("a", u)}, {arr, field(b, c, "d")}, {opt, field(b, c, "d")},
			{F("n", Bit(2)), chf}, {F("a", in), F("b", in2), field(b, c, "d"), field(b, c, "e")},
		} {
			r := b.Root(b.Struct(f...), fmt.Sprintf("%s = %s nested %d", c.kind, c.text, i))
			r.Max = 60
		}
	}
	// a template and an imported struct
	b := ch.B()
	b.S.Raw += "struct DTpl<T> { T a = 4; T b; };\n"
	inst := func(t *Type) *Type {
		x := F("a", t)
		x.Init, x.InitV = "4", Int(4)
		return &Type{K: KStruct, Name: "DTpl_" + t.Text, Fields: []*Field{x, F("b", t)}, Text: "DTpl<" + t.Text + ">"}
	}
	b.Root(b.Struct(F("t", inst(UInt(8))), F("u", inst(Var("varint32")))), "template")
	fa, fb := F("a", UInt(8)), F("b", String())
	fa.Init, fa.InitV = "9", Int(9)
	fb.Init, fb.InitV = `"far"`, &Val{S: []byte("far")}
	far := &Type{K: KStruct, Name: "FarDef", Text: "FarDef", Pkg: "dffar", Fields: []*Field{fa, fb, F("c", UInt(8))}}
	b.Root(b.Struct(F("f", far)), "imported struct")
	return s
}
