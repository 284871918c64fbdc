package zs

import (
	"errors"
	"fmt"
	"strings"
)

type Kind int

const (
	KFix Kind = iota // fixed width or bit field, Signed and Bits
	KDyn             // bit<expr> / int<expr>
	KVar             // varint16/32/64/varint and unsigned forms, varsize
	KBool
	KF16
	KF32
	KF64
	KString
	KBytes
	KExtern
	KEnum
	KBitmask
	KStruct
	KChoice
	KUnion
)

// Expr is a schema expression: its text and what it must evaluate to.
type Expr struct {
	Text string
	Eval func(*Env) int64
}

func Lit(n int64) *Expr {
	return &Expr{Text: fmt.Sprint(n), Eval: func(*Env) int64 { return n }}
}

// Name refers to a parameter or a sibling field.
func Name(s string) *Expr {
	return &Expr{Text: s, Eval: func(e *Env) int64 { return e.Get(s) }}
}

func IndexExpr() *Expr {
	return &Expr{Text: "@index", Eval: func(e *Env) int64 { return int64(e.Idx) }}
}

// Ex builds an expression with explicit text.
func Ex(text string, f func(*Env) int64) *Expr { return &Expr{Text: text, Eval: f} }

// Env is what an expression can see: the parameters and fields of the
// enclosing compound, and the element index.
type Env struct {
	P   map[string]int64
	T   *Type
	V   *Val
	Idx int
}

func (e *Env) Get(name string) int64 {
	if x, ok := e.P[name]; ok {
		return x
	}
	if x, ok := lookup(e.T, e.V, name); ok {
		return x
	}
	panic("no symbol " + name)
}

// lookup finds a field by a dotted path; an array gives its length.
func lookup(t *Type, v *Val, name string) (int64, bool) {
	if t == nil {
		return 0, false
	}
	head, rest, dotted := strings.Cut(name, ".")
	for i, f := range t.Fields {
		if f.Name != head {
			continue
		}
		switch {
		case v == nil || v.E[i] == nil:
			return 0, true
		case dotted:
			return lookup(f.T, v.E[i], rest)
		case f.Arr != nil:
			return int64(len(v.E[i].E)), true
		}
		return v.E[i].I, true
	}
	return 0, false
}

// ErrIndex: an array has no such element.
var ErrIndex = errors.New("array index out of range")

// ErrDiv: a division by zero.
var ErrDiv = errors.New("division by zero")

// Elem is element i of the array field name.
func (e *Env) Elem(name string, i int) int64 {
	for k, f := range e.T.Fields {
		if f.Name == name && e.V.E[k] != nil && i < len(e.V.E[k].E) {
			return e.V.E[k].E[i].I
		}
	}
	panic(ErrIndex)
}

// Div is a / b.
func Div(a, b int64) int64 {
	if b == 0 {
		panic(ErrDiv)
	}
	return a / b
}

// Catch turns the failed evaluation of an expression into an error.
func Catch(err *error) {
	if x := recover(); x != nil {
		if x != ErrIndex && x != ErrDiv {
			panic(x)
		}
		*err = x.(error)
	}
}

type Item struct {
	Name string
	Text string // explicit value text, or ""
	Val  int64
}

type Param struct {
	Name string
	T    *Type
}

type Case struct {
	Labels []string // label texts
	Vals   []int64
	Field  int // index in Fields, -1 for no field
}

type Arr struct {
	Packed bool
	Len    *Expr // nil: auto length
}

type Field struct {
	Name  string
	T     *Type
	Text  string // type text used in the schema when it differs (subtype, template, import)
	Args  []*Expr
	Opt   bool
	Cond  *Expr
	Align int
	Arr   *Arr
	Init  string // default initialiser text
	InitV *Val   // its value
}

type Func struct{ Ret, Name, Body string }

type Type struct {
	K      Kind
	Text   string // how it is written in a schema
	Name   string // Go name of a declared type (capitalised)
	Pkg    string // package of a declared type, if not the family default
	Signed bool
	Bits   int
	Dyn    *Expr
	MaxB   int // variable-size forms: most bytes
	Base   *Type
	Items  []Item
	Params []Param
	Fields []*Field
	Sel    *Expr
	Cases  []Case
	HasDef bool
	Def    int // default field index or -1
	Funcs  []Func
	Values []*Val // the value domain used for enumeration of leaves
}

func (t *Type) Compound() bool { return t.K == KStruct || t.K == KChoice || t.K == KUnion }
func (t *Type) Declared() bool { return t.K >= KEnum }
func (t *Type) Packable() bool {
	switch t.K {
	case KFix, KDyn, KVar, KEnum, KBitmask:
		return true
	}
	return false
}

// Val is a value of any type.
type Val struct {
	I   int64  // integers (unsigned: same bits), bool 0/1, enums, floats as IEEE bits of their Go type
	S   []byte // string, bytes, extern content
	N   uint64 // extern: bits
	E   []*Val // struct/union/choice fields by position, array elements; nil: absent
	Tag int    // union: chosen field, -1 none
}

func Int(i int64) *Val             { return &Val{I: i} }
func Str(s string) *Val            { return &Val{S: []byte(s)} }
func Ext(n uint64, b ...byte) *Val { return &Val{S: b, N: n} }
func List(e ...*Val) *Val          { return &Val{E: e} }

// ---- builtin types -------------------------------------------------------

func UInt(n int) *Type { return &Type{K: KFix, Text: fmt.Sprintf("uint%d", n), Bits: n} }
func SInt(n int) *Type { return &Type{K: KFix, Text: fmt.Sprintf("int%d", n), Bits: n, Signed: true} }
func Bit(n int) *Type  { return &Type{K: KFix, Text: fmt.Sprintf("bit:%d", n), Bits: n} }
func IntN(n int) *Type { return &Type{K: KFix, Text: fmt.Sprintf("int:%d", n), Bits: n, Signed: true} }
func BitDyn(e *Expr) *Type {
	return &Type{K: KDyn, Text: "bit<" + e.Text + ">", Dyn: e}
}
func IntDyn(e *Expr) *Type {
	return &Type{K: KDyn, Text: "int<" + e.Text + ">", Dyn: e, Signed: true}
}

type varForm struct {
	Name   string
	signed bool
	maxB   int
}

var VarForms = []varForm{{"varint16", true, 2}, {"varint32", true, 4}, {"varint64", true, 8}, {"varint", true, 9},
	{"varuint16", false, 2}, {"varuint32", false, 4}, {"varuint64", false, 8}, {"varuint", false, 9}, {"varsize", false, 5}}

func Var(name string) *Type {
	for _, f := range VarForms {
		if f.Name == name {
			return &Type{K: KVar, Text: name, Signed: f.signed, MaxB: f.maxB}
		}
	}
	panic(name)
}
func Bool() *Type   { return &Type{K: KBool, Text: "bool"} }
func F16() *Type    { return &Type{K: KF16, Text: "float16"} }
func F32() *Type    { return &Type{K: KF32, Text: "float32"} }
func F64() *Type    { return &Type{K: KF64, Text: "float64"} }
func String() *Type { return &Type{K: KString, Text: "string"} }
func Bytes() *Type  { return &Type{K: KBytes, Text: "bytes"} }
func Extern() *Type { return &Type{K: KExtern, Text: "extern"} }

// With sets the enumeration domain of a leaf type.
func (t *Type) With(v ...*Val) *Type { c := *t; c.Values = v; return &c }

// ---- printing ------------------------------------------------------------

func (f *Field) typeText() string {
	s := f.T.Text
	if f.Text != "" {
		s = f.Text
	}
	if len(f.Args) > 0 {
		a := make([]string, len(f.Args))
		for i, x := range f.Args {
			a[i] = x.Text
		}
		s += "(" + strings.Join(a, ", ") + ")"
	}
	return s
}

func (f *Field) Decl() string {
	var b strings.Builder
	if f.Align > 0 {
		fmt.Fprintf(&b, "align(%d):\n    ", f.Align)
	}
	if f.Opt {
		b.WriteString("optional ")
	}
	if f.Arr != nil && f.Arr.Packed {
		b.WriteString("packed ")
	}
	b.WriteString(f.typeText() + " " + f.Name)
	if f.Arr != nil {
		b.WriteString("[")
		if f.Arr.Len != nil {
			b.WriteString(f.Arr.Len.Text)
		}
		b.WriteString("]")
	}
	if f.Init != "" {
		b.WriteString(" = " + f.Init)
	}
	if f.Cond != nil {
		b.WriteString(" if " + f.Cond.Text)
	}
	b.WriteString(";")
	return b.String()
}

// Decl prints the declaration of a declared type.
func (t *Type) Decl() string {
	var b strings.Builder
	ps := ""
	if len(t.Params) > 0 {
		a := make([]string, len(t.Params))
		for i, p := range t.Params {
			a[i] = p.T.Text + " " + p.Name
		}
		ps = "(" + strings.Join(a, ", ") + ")"
	}
	switch t.K {
	case KEnum, KBitmask:
		kw := "enum"
		if t.K == KBitmask {
			kw = "bitmask"
		}
		fmt.Fprintf(&b, "%s %s %s\n{\n", kw, t.Base.Text, t.Name)
		for i, it := range t.Items {
			b.WriteString("    " + it.Name)
			if it.Text != "" {
				b.WriteString(" = " + it.Text)
			}
			if i < len(t.Items)-1 {
				b.WriteString(",")
			}
			b.WriteString("\n")
		}
		b.WriteString("};\n")
		return b.String()
	case KStruct:
		fmt.Fprintf(&b, "struct %s%s\n{\n", t.Name, ps)
		for _, f := range t.Fields {
			b.WriteString("    " + f.Decl() + "\n")
		}
	case KUnion:
		fmt.Fprintf(&b, "union %s%s\n{\n", t.Name, ps)
		for _, f := range t.Fields {
			b.WriteString("    " + f.Decl() + "\n")
		}
	case KChoice:
		fmt.Fprintf(&b, "choice %s%s on %s\n{\n", t.Name, ps, t.Sel.Text)
		for _, c := range t.Cases {
			for _, l := range c.Labels {
				fmt.Fprintf(&b, "    case %s:\n", l)
			}
			if c.Field >= 0 {
				b.WriteString("        " + t.Fields[c.Field].Decl() + "\n")
			} else {
				b.WriteString("        ;\n")
			}
		}
		if t.HasDef {
			b.WriteString("    default:\n")
			if t.Def >= 0 {
				b.WriteString("        " + t.Fields[t.Def].Decl() + "\n")
			} else {
				b.WriteString("        ;\n")
			}
		}
	}
	for _, f := range t.Funcs {
		fmt.Fprintf(&b, "    function %s %s()\n    {\n        return %s;\n    }\n", f.Ret, f.Name, f.Body)
	}
	b.WriteString("};\n")
	return b.String()
}

// Schema is one package: a name, raw extra declarations, and declared types.
type Schema struct {
	Pkg     string
	Imports []string
	Raw     string
	Types   []*Type
}

func (s *Schema) Text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s;\n\n", s.Pkg)
	for _, i := range s.Imports {
		fmt.Fprintf(&b, "import %s;\n", i)
	}
	b.WriteString(s.Raw)
	for _, t := range s.Types {
		b.WriteString("\n" + t.Decl())
	}
	return b.String()
}
