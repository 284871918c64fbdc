// Package fam enumerates the schema families each property is decided on.
package fam

import (
	"fmt"
	"sort"

	. "mc/zs"
)

// Root is a type whose values are enumerated.
type Root struct {
	T     *Type
	Pkg   string
	Name  string // registry key
	Desc  string
	Lim   Lim
	P     []map[string]int64 // parameter assignments to try (nil: none)
	NoAlt bool
	Last  any // the object decoded last, decoded into again
	Max   int // explore up to this many values exhaustively before bounding deviations
}

type Set struct {
	Schemas []*Schema
	Roots   []*Root
	Files   map[string]string // extra raw schema files (path -> text)
	Extra   []*Root           // registered, but without a model
	Vals    []RegVal          // registered values
}

// RegVal is a Go expression of the generated code to register; $ is its package.
type RegVal struct{ Name, Pkg, Expr string }

// B builds one package.
type B struct {
	S     *Schema
	set   *Set
	n     int
	Lim   Lim
	decls map[string]*Type
}

func NewSet() *Set { return &Set{Files: map[string]string{}} }

func (s *Set) Pkg(name string) *B {
	b := &B{S: &Schema{Pkg: name}, set: s, Lim: Lim{MaxLen: 2, LenFirst: 2}, decls: map[string]*Type{}}
	s.Schemas = append(s.Schemas, b.S)
	return b
}

func (b *B) name(prefix string) string { b.n++; return fmt.Sprintf("%s%d", prefix, b.n) }

func (b *B) add(t *Type) *Type {
	t.Text = t.Name
	t.Pkg = b.S.Pkg
	b.S.Types = append(b.S.Types, t)
	return t
}

func (b *B) Struct(f ...*Field) *Type { return b.add(&Type{K: KStruct, Name: b.name("S"), Fields: f}) }
func (b *B) PStruct(p []Param, f ...*Field) *Type {
	return b.add(&Type{K: KStruct, Name: b.name("PS"), Params: p, Fields: f})
}
func (b *B) Union(f ...*Field) *Type { return b.add(&Type{K: KUnion, Name: b.name("U"), Fields: f}) }
func (b *B) Enum(base *Type, items ...Item) *Type {
	return b.add(&Type{K: KEnum, Name: b.name("E"), Base: base, Items: items})
}
func (b *B) Bitmask(base *Type, items ...Item) *Type {
	return b.add(&Type{K: KBitmask, Name: b.name("M"), Base: base, Items: items})
}

// Sub declares a subtype and returns a type that is written with its name.
func (b *B) Sub(t *Type) *Type {
	n := b.name("Sub")
	b.S.Raw += fmt.Sprintf("subtype %s %s;\n", t.Text, n)
	c := *t
	c.Text = n
	return &c
}

// Root registers a type for value enumeration.
func (b *B) Root(t *Type, desc string) *Root {
	r := &Root{T: t, Pkg: b.S.Pkg, Name: b.S.Pkg + "." + t.Name, Desc: desc, Lim: b.Lim}
	b.set.Roots = append(b.set.Roots, r)
	return r
}

func F(name string, t *Type) *Field { return &Field{Name: name, T: t} }

func (b *B) StdEnum() *Type {
	if b.decls["enum"] == nil {
		b.decls["enum"] = b.Enum(SInt(8), Item{"ONE", "1", 1}, Item{"NEG", "-7", -7}, Item{"NEXT", "", -6}, Item{"MAX", "127", 127})
	}
	return b.decls["enum"]
}
func (b *B) StdEnumU() *Type {
	if b.decls["enumu"] == nil {
		b.decls["enumu"] = b.Enum(Bit(5), Item{"A", "", 0}, Item{"B", "", 1}, Item{"C", "17", 17})
	}
	return b.decls["enumu"]
}
func (b *B) StdMask() *Type {
	if b.decls["mask"] == nil {
		b.decls["mask"] = b.Bitmask(UInt(8), Item{"R", "1", 1}, Item{"W", "", 2}, Item{"X", "128", 128})
	}
	return b.decls["mask"]
}
func (b *B) StdMaskB() *Type {
	if b.decls["maskb"] == nil {
		b.decls["maskb"] = b.Bitmask(Bit(3), Item{"P", "", 1}, Item{"Q", "", 2}, Item{"Z", "", 4})
	}
	return b.decls["maskb"]
}
func (b *B) StdStruct() *Type {
	if b.decls["struct"] == nil {
		b.decls["struct"] = b.Struct(F("p", Bit(3)), F("q", SInt(16)), F("r", Bool()))
	}
	return b.decls["struct"]
}
func (b *B) StdUnion() *Type {
	if b.decls["union"] == nil {
		b.decls["union"] = b.Union(F("n", UInt(16)), F("s", String()), F("m", Bool()))
	}
	return b.decls["union"]
}

// Shape makes a field of some kind.
type Shape struct {
	Name string
	Make func(b *B, name string) *Field
}

func leafShape(n string, f func(b *B) *Type) Shape {
	return Shape{n, func(b *B, name string) *Field { return F(name, f(b)) }}
}

// Leaves is the alphabet of leaf field kinds.
func Leaves() []Shape {
	var r []Shape
	add := func(n string, f func(b *B) *Type) { r = append(r, leafShape(n, f)) }
	for _, n := range []int{8, 16, 32, 64} {
		n := n
		add(fmt.Sprintf("uint%d", n), func(*B) *Type { return UInt(n) })
		add(fmt.Sprintf("int%d", n), func(*B) *Type { return SInt(n) })
	}
	for _, n := range []int{1, 3, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64} {
		n := n
		add(fmt.Sprintf("bit:%d", n), func(*B) *Type { return Bit(n) })
		add(fmt.Sprintf("int:%d", n), func(*B) *Type { return IntN(n) })
	}
	for _, v := range VarForms {
		n := v.Name
		add(n, func(*B) *Type { return Var(n) })
	}
	add("bool", func(*B) *Type { return Bool() })
	add("float16", func(*B) *Type { return F16() })
	add("float32", func(*B) *Type { return F32() })
	add("float64", func(*B) *Type { return F64() })
	add("string", func(*B) *Type { return String() })
	add("bytes", func(*B) *Type { return Bytes() })
	add("extern", func(*B) *Type { return Extern() })
	add("enum", func(b *B) *Type { return b.StdEnum() })
	add("enumU", func(b *B) *Type { return b.StdEnumU() })
	add("bitmask", func(b *B) *Type { return b.StdMask() })
	add("bitmaskB", func(b *B) *Type { return b.StdMaskB() })
	add("struct", func(b *B) *Type { return b.StdStruct() })
	add("union", func(b *B) *Type { return b.StdUnion() })
	add("subint", func(b *B) *Type { return b.Sub(UInt(16)) })
	add("subbit", func(b *B) *Type { return b.Sub(IntN(5)) })
	add("substring", func(b *B) *Type { return b.Sub(String()) })
	add("subenum", func(b *B) *Type { return b.Sub(b.StdEnum()) })
	add("substruct", func(b *B) *Type { return b.Sub(b.StdStruct()) })
	return r
}

// Pick selects shapes by name, in the order given.
func Pick(all []Shape, names ...string) []Shape {
	var r []Shape
	for _, n := range names {
		ok := false
		for _, s := range all {
			if s.Name == n {
				r = append(r, s)
				ok = true
			}
		}
		if !ok {
			panic("no shape " + n)
		}
	}
	return r
}

// Mod changes a field; a condition may need a leading control field.
type Mod struct {
	Name string
	Ctl  bool // the struct needs a leading "bool ctl" field
	Do   func(f *Field)
}

func Mods() []Mod {
	return []Mod{
		{"", false, func(f *Field) {}},
		{"opt", false, func(f *Field) { f.Opt = true }},
		{"if", true, func(f *Field) { f.Cond = Name("ctl") }},
		{"al8", false, func(f *Field) { f.Align = 8 }},
		{"al5", false, func(f *Field) { f.Align = 5 }},
		{"al32", false, func(f *Field) { f.Align = 32 }},
		{"optal8", false, func(f *Field) { f.Opt = true; f.Align = 8 }},
		{"ifal16", true, func(f *Field) { f.Cond = Name("ctl"); f.Align = 16 }},
	}
}

func pickMods(names ...string) []Mod {
	var r []Mod
	for _, n := range names {
		for _, m := range Mods() {
			if m.Name == n {
				r = append(r, m)
			}
		}
	}
	return r
}

// Comb is a field kind with a modifier.
type Comb struct {
	S Shape
	M Mod
}

func Cross(s []Shape, m []Mod) []Comb {
	var r []Comb
	for _, x := range s {
		for _, y := range m {
			r = append(r, Comb{x, y})
		}
	}
	return r
}

// FieldsOf builds the fields of a struct from combinations, adding the control
// field when one of them needs it.
func FieldsOf(b *B, cs ...Comb) []*Field {
	var fs []*Field
	for _, c := range cs {
		if c.M.Ctl {
			fs = append(fs, F("ctl", Bool()))
			break
		}
	}
	for i, c := range cs {
		f := c.S.Make(b, string(rune('a'+i)))
		c.M.Do(f)
		fs = append(fs, f)
	}
	return fs
}

func desc(cs ...Comb) string {
	s := ""
	for i, c := range cs {
		if i > 0 {
			s += ","
		}
		s += c.S.Name
		if c.M.Name != "" {
			s += "/" + c.M.Name
		}
	}
	return s
}

// Chunk spreads structs over packages so that each stays small.
type Chunk struct {
	set    *Set
	prefix string
	cur    *B
	n, pk  int
	size   int
	Setup  func(*B)
}

func (s *Set) Chunk(prefix string, size int) *Chunk {
	return &Chunk{set: s, prefix: prefix, size: size}
}
func (c *Chunk) B() *B {
	if c.cur == nil || c.n >= c.size {
		c.pk++
		c.n = 0
		c.cur = c.set.Pkg(fmt.Sprintf("%s%d", c.prefix, c.pk))
		if c.Setup != nil {
			c.Setup(c.cur)
		}
	}
	c.n++
	return c.cur
}

func Names() []string {
	var r []string
	for k := range families {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var families = map[string]func(thorough bool) *Set{}

// Get returns the families of a property.
func Get(id string, thorough bool) *Set {
	if f := families[id]; f != nil {
		return f(thorough)
	}
	return nil
}
