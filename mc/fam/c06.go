package fam

import . "mc/zs"

func init() { families["C06"] = C06 }

// C06: struct layout. All single fields over the full alphabet, all pairs and
// triples over reduced ones, two levels of nesting.
func C06(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("st", 60)
	one := func(cs ...Comb) {
		b := ch.B()
		b.Root(b.Struct(FieldsOf(b, cs...)...), desc(cs...))
	}
	for _, c := range Cross(Leaves(), Mods()) {
		one(c)
	}
	// a declared default changes nothing in the wire form
	for _, c := range Cross(Leaves(), Mods()) {
		b := ch.B()
		fs := append(FieldsOf(b, c), F("z", Bit(2)))
		f := fs[len(fs)-2]
		t := f.T
		switch t.K {
		case KBool:
			f.Init = "true"
		case KString:
			f.Init = `"x"`
		case KF16, KF32, KF64:
			f.Init = "1.5"
		case KEnum, KBitmask:
			f.Init = t.Name + "." + t.Items[0].Name
		case KFix, KVar:
			f.Init = "0"
		default:
			continue
		}
		b.Root(b.Struct(fs...), desc(c)+" with a default")
	}
	pairs := Cross(Pick(Leaves(), "uint8", "int:7", "varuint", "string", "extern", "struct"), pickMods("", "opt", "al8", "if"))
	if th {
		pairs = Cross(Pick(Leaves(), "uint8", "int:7", "varuint", "bool", "float16", "string", "bytes", "extern", "enum", "bitmaskB", "struct", "union"), pickMods("", "opt", "al8", "if"))
	}
	for _, x := range pairs {
		for _, y := range pairs {
			one(x, y)
		}
	}
	tri := Cross(Pick(Leaves(), "bit:3", "varint32"), pickMods("", "opt", "al5"))
	if th {
		tri = Cross(Pick(Leaves(), "bit:3", "varint32", "string", "enumU"), pickMods("", "opt", "al5"))
	}
	for _, x := range tri {
		for _, y := range tri {
			for _, z := range tri {
				one(x, y, z)
			}
		}
	}
	// nesting: a struct of structs, each modifier at each level
	for _, in := range Cross(Pick(Leaves(), "bit:3", "string", "struct", "bytes"), Mods()) {
		for _, m := range Mods() {
			b := ch.B()
			inner := b.Struct(FieldsOf(b, in)...)
			outer := Comb{leafShape("nest", func(*B) *Type { return inner }), m}
			b.Root(b.Struct(append(FieldsOf(b, outer), F("z", Bit(2)))...), "nest("+desc(in)+")/"+m.Name)
		}
	}
	return s
}
