package fam

import (
	"fmt"

	. "mc/zs"
)

func init() {
	families["C04"] = C04
	families["C05"] = C05
}

// arrKind is a way to give an array its length.
type arrKind struct {
	name string
	lead func(b *B) []*Field
	len  *Expr
}

func arrKinds() []arrKind {
	none := func(*B) []*Field { return nil }
	n := func(*B) []*Field { return []*Field{F("n", Bit(2))} }
	return []arrKind{
		{"[]", none, nil},
		{"[0]", none, Lit(0)},
		{"[1]", none, Lit(1)},
		{"[3]", none, Lit(3)},
		{"[n]", n, Name("n")},
		{"[n+1]", n, Ex("n + 1", func(e *Env) int64 { return e.Get("n") + 1 })},
	}
}

func arrField(b *B, s Shape, name string, k arrKind, packed bool) *Field {
	f := s.Make(b, name)
	f.Arr = &Arr{Packed: packed, Len: k.len}
	return f
}

func scalarShapes() []Shape {
	var r []Shape
	for _, s := range Leaves() {
		if s.Name != "struct" && s.Name != "union" && s.Name != "substruct" {
			r = append(r, s)
		}
	}
	return r
}

// C04: unpacked arrays.
func C04(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("ar", 60)
	for _, sh := range Leaves() {
		for _, k := range arrKinds() {
			b := ch.B()
			fs := append(k.lead(b), arrField(b, sh, "a", k, false), F("z", Bit(3).With(Int(5))))
			b.Root(b.Struct(fs...), sh.Name+k.name)
		}
	}
	// modifiers on the array field
	for _, sh := range Pick(Leaves(), "uint8", "int:7", "varuint16", "string", "extern", "bool", "enum", "struct", "union") {
		for _, k := range arrKinds()[:4] {
			for _, m := range Mods()[1:] {
				b := ch.B()
				var fs []*Field
				if m.Ctl {
					fs = append(fs, F("ctl", Bool()))
				}
				f := arrField(b, sh, "a", k, false)
				m.Do(f)
				b.Root(b.Struct(append(fs, f)...), sh.Name+k.name+"/"+m.Name)
			}
		}
	}
	// two arrays, struct of arrays in an array
	for _, x := range Pick(Leaves(), "bit:3", "string", "struct") {
		for _, y := range Pick(Leaves(), "varint", "bytes", "enumU") {
			b := ch.B()
			in := b.Struct(arrField(b, x, "a", arrKinds()[0], false), arrField(b, y, "b", arrKinds()[3], false))
			b.Root(in, x.Name+"[]+"+y.Name+"[3]").Lim.Small = true
			f := F("c", in)
			f.Arr = &Arr{}
			r := b.Root(b.Struct(f), "("+x.Name+"[]+"+y.Name+"[3])[]")
			r.Lim.Small = true
			r.Lim.MaxLen = 2
		}
	}
	// lengths around the steps of the length prefix
	for _, sh := range Pick(Leaves(), "uint8", "bit:3", "bool", "struct", "string", "varsize") {
		b := ch.B()
		f := arrField(b, sh, "a", arrKinds()[0], false)
		r := b.Root(b.Struct(f), sh.Name+"[long]")
		r.Lim = Lim{Lens: []int{3, 126, 127, 128, 129, 255, 256}, Pat: true, Pats: 2, Small: true}
		if sh.Name == "uint8" || sh.Name == "bool" {
			r.Lim.Lens = append(r.Lim.Lens, 16383, 16384, 65535, 65536, 65537)
			if th && sh.Name == "bool" {
				r.Lim.Lens = append(r.Lim.Lens, 2097151, 2097152)
			}
		}
	}
	// and with a length given by an expression
	for _, sh := range Pick(Leaves(), "uint8", "bool", "struct") {
		for _, n := range []int{127, 128, 255, 256, 16384, 65535, 65536, 65537} {
			if sh.Name == "struct" && n > 256 {
				break
			}
			b := ch.B()
			r := b.Root(b.Struct(arrField(b, sh, "a", arrKind{"", nil, Lit(int64(n))}, false), F("z", Bit(3).With(Int(5)))), fmt.Sprintf("%s[%d]", sh.Name, n))
			r.Lim = Lim{Pat: true, Pats: 2, Small: true}
		}
	}
	return s
}

// deltaDom is a domain whose differences meet every interesting delta width.
func deltaDom(t *Type, th bool) []*Val {
	bits := t.Bits
	if t.K == KVar {
		bits = map[int]int{2: 15, 4: 29, 8: 57, 9: 64, 5: 31}[t.MaxB]
		if t.Signed && bits < 64 {
			bits = map[int]int{2: 14, 4: 28, 8: 56}[t.MaxB] + 1
		}
	}
	var r []*Val
	seen := map[int64]bool{}
	add := func(i int64) {
		ok := true
		if t.K == KVar {
			_, err := VarLen(t.Signed, t.MaxB, i)
			ok = err == nil
		} else {
			var b Bits
			ok = EncLeaf(&b, t, Int(i), nil) == nil
		}
		if ok && !seen[i] {
			seen[i] = true
			r = append(r, Int(i))
		}
	}
	add(0)
	ks := []int{1, 2, 3, 7, 8, 15, 16, 31, 32, 60, 61, 62, 63, 64}
	if th {
		ks = nil
		for i := 1; i <= 64; i++ {
			ks = append(ks, i)
		}
	}
	for _, k := range ks {
		if k > bits {
			continue
		}
		p := uint64(1) << uint(k-1) // 2^(k-1)
		add(int64(p))
		add(int64(p - 1))
		add(int64(p<<1 - 1))
		if t.Signed {
			add(-int64(p))
			add(-int64(p) - 1)
		}
	}
	add(-1)
	return r
}

// C05: packed arrays of scalar types.
func C05(th bool) *Set {
	s := NewSet()
	ch := s.Chunk("pk", 60)
	for _, sh := range scalarShapes() {
		for _, k := range arrKinds() {
			b := ch.B()
			fs := append(k.lead(b), arrField(b, sh, "a", k, true), F("z", Bit(3).With(Int(5))))
			r := b.Root(b.Struct(fs...), "packed "+sh.Name+k.name)
			if k.name == "[]" {
				r.Lim.MaxLen, r.Lim.LenFirst = 3, 3
				if th {
					r.Lim.MaxLen, r.Lim.LenFirst = 4, 4
				}
			}
		}
		// longer arrays of two values: packing worth while
		b := ch.B()
		f := arrField(b, sh, "a", arrKinds()[0], true)
		if f.T.K == KFix || f.T.K == KVar {
			f.T = f.T.With(deltaDom(f.T, th)...)
		}
		r := b.Root(b.Struct(f, F("z", Bit(3).With(Int(5)))), "packed "+sh.Name+"[pattern]")
		r.Lim = Lim{Lens: []int{9, 3, 8, 10, 12}, Pat: true}
		r.Max = 30000
		b = ch.B()
		k := arrKind{"[9]", nil, Lit(9)}
		f = arrField(b, sh, "a", k, true)
		r = b.Root(b.Struct(F("y", Bit(1).With(Int(1))), f), "packed "+sh.Name+"[9]")
		r.Lim = Lim{Pat: true}
	}
	for _, sh := range Pick(Leaves(), "uint8", "int:7", "varuint16", "enum", "bitmaskB", "subint", "uint64", "string", "bool", "float32", "extern") {
		for _, k := range arrKinds()[:4] {
			for _, m := range Mods()[1:] {
				b := ch.B()
				var fs []*Field
				if m.Ctl {
					fs = append(fs, F("ctl", Bool()))
				}
				f := arrField(b, sh, "a", k, true)
				m.Do(f)
				b.Root(b.Struct(append(fs, f)...), "packed "+sh.Name+k.name+"/"+m.Name)
			}
		}
	}
	// two packed arrays whose bit fields share a width but not a Go type
	for n := 1; n <= 64; n++ {
		b := ch.B()
		f1 := F("a", Bit(n))
		f1.Arr = &Arr{Packed: true}
		f2 := F("b", IntN(n))
		f2.Arr = &Arr{Packed: true}
		r := b.Root(b.Struct(f1, f2), fmt.Sprintf("packed bit:%d[], int:%d[]", n, n))
		r.Lim = Lim{MaxLen: 2, LenFirst: 2, Small: true}
	}
	return s
}
