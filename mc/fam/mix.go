package fam

import (
	"fmt"
	"regexp"
	"strings"

	. "mc/zs"
)

// C11: every family the encodings are decided on. C12 to C14 take one root of
// each structure in the quick tier, all of them in the thorough one.
func init() {
	ids := []string{"C04", "C05", "C06", "C07", "C08", "C09", "C10"}
	families["C11"] = func(th bool) *Set { return Merge(th, ids...) }
	for _, id := range []string{"C12", "C13", "C14"} {
		families[id] = func(th bool) *Set {
			s := Merge(th, ids...)
			if !th {
				s.Reduce()
			}
			if id == "C13" {
				hugeLengths(s)
			}
			return s
		}
	}
}

// hugeLengths: arrays whose length is a field that can hold much more than
// there is data for.
func hugeLengths(s *Set) {
	ch := s.Chunk("hl", 40)
	for _, lt := range []struct {
		name string
		t    *Type
	}{{"uint64", UInt(64)}, {"int64", SInt(64)}, {"uint32", UInt(32)}, {"varuint", Var("varuint")}, {"varint", Var("varint")}, {"bit:63", Bit(63)}} {
		for _, packed := range []bool{false, true} {
			b := ch.B()
			for _, el := range []struct {
				name string
				t    *Type
			}{{"uint8", UInt(8)}, {"bool", Bool()}, {"string", String()}, {"enum", b.StdEnum()}, {"struct", b.StdStruct()}, {"union", b.Union(F("a", UInt(16)), F("b", Bit(3)))}, {"small struct", b.Struct(F("a", Bit(1)))}} {
				f := F("a", el.t)
				f.Arr = &Arr{Len: Name("n"), Packed: packed}
				r := b.Root(b.Struct(F("n", lt.t.With(Int(0), Int(1), Int(2))), f), fmt.Sprintf("%s[n] of length %s packed=%v", el.name, lt.name, packed))
				r.Lim, r.Max = Lim{Small: true}, 30
			}
		}
	}
}

func init() {
	// the types whose code may share state: one of each shape
	families["C15"] = func(th bool) *Set {
		s := Merge(false, "C04", "C05", "C06", "C07", "C08", "C09", "C10")
		if th {
			s.Reduce()
		} else {
			s.ReduceCoarse()
		}
		return s
	}
}

// Merge joins families; their package names differ.
func Merge(th bool, ids ...string) *Set {
	s := NewSet()
	for _, id := range ids {
		x := families[id](th)
		s.Schemas = append(s.Schemas, x.Schemas...)
		s.Roots = append(s.Roots, x.Roots...)
		for k, v := range x.Files {
			s.Files[k] = v
		}
	}
	return s
}

// leafClass drops widths from a leaf kind.
func leafClass(t *Type) string {
	switch t.K {
	case KFix, KDyn, KVar:
		return "i"
	case KEnum, KBitmask:
		return "e"
	case KF16, KF32, KF64:
		return "f"
	case KString, KBytes, KExtern:
		return "s"
	}
	return fmt.Sprint(t.K)
}

// features lists what occurs in a type: every field kind with its modifiers by
// container and depth, and every two neighbouring field classes.
func features(t *Type, path string, depth int, f func(string)) {
	if depth > 4 {
		return
	}
	path += fmt.Sprint(t.K)
	f(fmt.Sprint(path, t.HasDef, t.HasDef && t.Def < 0))
	prev := ""
	for i, x := range t.Fields {
		m := ""
		if x.Opt {
			m += "?"
		}
		if x.Cond != nil {
			m += "!"
		}
		if x.Align > 0 {
			m += "@"
		}
		if x.Arr != nil {
			m += fmt.Sprint("[", x.Arr.Packed, x.Arr.Len != nil, "]")
		}
		for _, a := range x.Args {
			if a.Text == "@index" || x.T.Compound() && depth == 0 && len(x.Args) == 1 {
				m += "(" + a.Text + ")"
			}
		}
		fine := fmt.Sprint(x.T.K)
		if !x.T.Compound() {
			fine += x.T.Text
			if x.T.Declared() {
				fine = "d" + x.T.Base.Text
			}
			if x.T.K == KDyn {
				fine = "dyn"
			}
		}
		if depth < 2 {
			f(path + "/" + fine)
		}
		now := leafClass(x.T) + m
		f(path + "/" + now)
		if i < 8 && depth < 2 {
			f(fmt.Sprint(t.K, "/", prev, ">", now))
		}
		prev = now
		if x.T.Compound() {
			in := "."
			if x.Arr != nil {
				in = fmt.Sprint("[", x.Arr.Packed, "]")
			}
			features(x.T, path+in, depth+1, f)
		}
	}
}

// Reduce keeps the roots that show a feature no earlier root has, and the
// declarations they need.
func (s *Set) Reduce() {
	s.reduceBy(func(t *Type, f func(string)) { features(t, "", 0, f) })
}

// ReduceCoarse keeps one root of each container, field kind and modifier.
func (s *Set) ReduceCoarse() {
	s.reduceBy(func(t *Type, f func(string)) { coarse(t, 0, f) })
}

func coarse(t *Type, depth int, f func(string)) {
	if depth > 3 {
		return
	}
	for _, x := range t.Fields {
		m := fmt.Sprint(t.K, "/", x.T.K, x.Opt, x.Cond != nil, x.Align > 0, len(x.Args) > 0)
		if x.Arr != nil {
			m += fmt.Sprint("[", x.Arr.Packed, x.Arr.Len != nil, "]")
		}
		f(m)
		if x.T.Compound() {
			coarse(x.T, depth+1, f)
		}
	}
}

func (s *Set) reduceBy(feat func(t *Type, f func(string))) {
	seen := map[string]bool{}
	var keep []*Root
	for _, r := range s.Roots {
		fresh := false
		feat(r.T, func(k string) {
			if !seen[k] {
				seen[k], fresh = true, true
			}
		})
		if fresh {
			keep = append(keep, r)
		}
	}
	s.Roots = keep
	s.Prune()
}

var word = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

// Prune drops the declarations no root needs.
func (s *Set) Prune() {
	need := map[string]map[string]bool{}
	byPkg := map[string]*Schema{}
	for _, sc := range s.Schemas {
		need[sc.Pkg] = map[string]bool{}
		byPkg[sc.Pkg] = sc
	}
	var mark func(pkg, text string)
	mark = func(pkg, text string) {
		sc := byPkg[pkg]
		if sc == nil {
			return
		}
		for _, w := range word.FindAllString(text, -1) {
			for _, t := range sc.Types {
				if t.Name == w && !need[pkg][w] {
					need[pkg][w] = true
					mark(pkg, t.Decl())
				}
			}
			for other := range byPkg {
				if other != pkg && strings.Contains(sc.Raw, "import "+other+".") {
					for _, t := range byPkg[other].Types {
						if t.Name == w && !need[other][w] {
							need[other][w] = true
							mark(other, t.Decl())
						}
					}
				}
			}
		}
	}
	for _, r := range s.Roots {
		need[r.Pkg][r.T.Name] = true
		mark(r.Pkg, r.T.Decl())
	}
	for _, sc := range s.Schemas {
		// raw declarations without roots are dropped with their package
		if len(need[sc.Pkg]) > 0 {
			mark(sc.Pkg, sc.Raw)
		}
	}
	var out []*Schema
	for _, sc := range s.Schemas {
		if len(need[sc.Pkg]) == 0 {
			continue
		}
		var ts []*Type
		for _, t := range sc.Types {
			if need[sc.Pkg][t.Name] {
				ts = append(ts, t)
			}
		}
		sc.Types = ts
		out = append(out, sc)
	}
	s.Schemas = out
}
