package gsch

import (
	"fmt"
	"go/token"
	"regexp"
	"sort"
	"strings"

	"mc/genw"
)

// Prog is a schema of the check of generated code.
type Prog struct {
	Family, Name string
	Files        []genw.File
	Must         bool // the generator has to accept it
	SQL          bool
	NoFmt        bool
	Root         string
	Pkgs         []string // print these packages
}

var packageLine = regexp.MustCompile(`(?m)^\s*package\s+([A-Za-z0-9_.]+)\s*;`)

// Packages returns the names of the packages of a set.
func Packages(files []genw.File) []string {
	var out []string
	for _, f := range files {
		if m := packageLine.FindStringSubmatch(f.Src); m != nil {
			out = append(out, m[1])
		}
	}
	return out
}

// options generates the seeds with all combinations of command line options.
func options(sets []Set, add func(Prog)) {
	for _, set := range sets {
		pkgs := Packages(set.Files)
		if len(pkgs) != len(set.Files) {
			pkgs = nil
		}
		for _, root := range []string{"zg", "example.com/some/where", "zserio", "gen/v2", "a", "a.b-c/d_e"} {
			for mask := 0; mask < 8; mask++ {
				x := Prog{Family: "options", Name: set.Name, Files: set.Files, Must: true, Root: root, SQL: mask&1 != 0, NoFmt: mask&2 != 0}
				if mask&4 != 0 {
					if pkgs == nil {
						continue
					}
					x.Pkgs = pkgs
				}
				x.Name += fmt.Sprintf(": root %s, sql %v, noformat %v, printed %v", root, x.SQL, x.NoFmt, mask&4 != 0)
				add(x)
			}
		}
	}
}

func prog(family, name string, files []genw.File, must, sql bool) Prog {
	return Prog{Family: family, Name: name, Files: files, Must: must, SQL: sql}
}

func withFile(files []genw.File, k int, src string) []genw.File {
	out := append([]genw.File(nil), files...)
	out[k].Src = src
	return out
}

func join(ss []string) string { return strings.Join(ss, " ") }

var allTypes = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "varint", "varint16", "varint32", "varint64",
	"varsize", "varuint", "varuint16", "varuint32", "varuint64", "bool", "string", "float16", "float32", "float64", "extern", "bytes",
	"bit:1", "bit:8", "bit:9", "bit:31", "bit:32", "bit:33", "bit:63", "bit:64", "int:1", "int:8", "int:9", "int:32", "int:33", "int:63", "int:64"}

// mutants are the seeds with one token replaced by another of its kind.
func mutants(sets []Set, add func(Prog)) {
	binops := []string{"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}
	lits := []string{"0", "1", "7", "64", "65", "255", "256", "70000", "5000000000", "true", "1.5", "1.5f", "\"s\"", "1b", "0xFF", "017", "-1", "!true"}
	unary := []string{"-", "+", "!", "~"}
	for _, set := range sets {
		names := map[string]bool{}
		var order []string
		for _, f := range set.Files {
			for _, t := range Lex(f.Src) {
				if t.Kind == "ID" && !names[t.Text] {
					names[t.Text] = true
					order = append(order, t.Text)
				}
			}
		}
		for k, f := range set.Files {
			toks := Lex(f.Src)
			for i, t := range toks {
				put := func(x string) {
					if x == t.Text {
						return
					}
					add(prog("mutants", fmt.Sprintf("%s/%s: token %d %q replaced by %q", set.Name, f.Name, i, t.Text, x),
						withFile(set.Files, k, f.Src[:t.At]+" "+x+" "+f.Src[t.At+len(t.Text):]), false, true))
				}
				isType := false
				for _, x := range allTypes {
					isType = isType || x == t.Text || strings.HasPrefix(x, t.Text+":")
				}
				isLit := strings.Contains("BIN OCT INT HEX BOOL STRING FLOAT DOUBLE", t.Kind) && t.Kind != ""
				isBin, isUn := false, false
				for _, x := range binops {
					isBin = isBin || x == t.Text
				}
				for _, x := range unary {
					isUn = isUn || x == t.Text
				}
				switch {
				case t.Kind == "ID":
					for _, n := range order {
						put(n)
					}
					for _, x := range lits[:14] {
						put(x)
					}
					for _, x := range allTypes[:24] {
						put(x)
					}
					put("(" + t.Text + ")")
					put(t.Text + "()")
					put(t.Text + "[0]")
					put("valueof(" + t.Text + ")")
					put("lengthof(" + t.Text + ")")
					put("numbits(" + t.Text + ")")
					put("-" + t.Text)
					put("~" + t.Text)
					put("!" + t.Text)
					put("bit:9")
					put("optional " + t.Text)
					put("packed " + t.Text)
					put(t.Text + "[]")
					put(t.Text + "[2]")
				case isType:
					for _, x := range allTypes {
						put(x)
					}
					for _, n := range order {
						put(n)
					}
					put("optional " + t.Text)
					put("packed " + t.Text)
					put("align(4): " + t.Text)
				case isLit:
					for _, x := range lits {
						put(x)
					}
					for _, n := range order {
						put(n)
					}
					put("@index")
				case isBin || isUn:
					for _, x := range append(append([]string{}, binops...), unary...) {
						put(x)
					}
					put("")
				case t.Kind == "struct" || t.Kind == "union" || t.Kind == "enum" || t.Kind == "bitmask" || t.Kind == "sql_table":
					for _, x := range []string{"struct", "union", "enum uint8", "bitmask uint8", "sql_table", "sql_database", "choice"} {
						put(x)
					}
				case t.Kind == "optional" || t.Kind == "packed" || t.Kind == "default":
					put("")
				case t.Text == "@index":
					put("1")
					for _, n := range order {
						put(n)
					}
				}
			}
		}
	}
}

// comments puts comments of every form between any two tokens of the seeds.
func comments(th bool, add func(Prog)) {
	forms := []string{"/* c */", "/** c */", "// c\n", "/* * / */", "/***/", "/* a\n b */", "/** a\n * b\n *\n * c */", "//\n", "// */\n",
		"/** `b` \"q\" 'r' \\ %d {{.}} $x */", "// +build ignore\n", "/** //go:build ignore */", "/** +build ignore */", "/** é 日本 \t x */", "/** a\r\n b\r\n */", "/* /* */",
		"//go:build ignore\n", "/** @see x <b> &amp; */", "/**\n*/", "/** */", "/** package x; import \"y\" */", "/** Code generated by x. DO NOT EDIT. */", "/**\n//go:build ignore\n\npackage z\n*/"}
	for _, set := range Sets {
		forms := forms
		switch {
		case th || set.Name == "comments":
		case set.Name == "enums" || set.Name == "functions" || set.Name == "consts" || set.Name == "casepkg":
			forms = []string{forms[1], forms[2], forms[17], forms[10]}
		default:
			continue
		}
		for k, f := range set.Files {
			toks := Lex(f.Src)
			for i := range append(toks, Tok{}) {
				at := len(f.Src)
				if i < len(toks) {
					at = toks[i].At
				}
				for _, c := range forms {
					add(prog("comments", fmt.Sprintf("%s/%s: comment %q before token %d", set.Name, f.Name, c, i),
						withFile(set.Files, k, f.Src[:at]+c+" "+f.Src[at:]), true, false))
				}
			}
		}
	}
}

func file(name, src string) []genw.File { return []genw.File{{Name: name, Src: src}} }

// identifiers that mean something to Go or to the generated code.
func idents() []string {
	return strings.Fields(`break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type
	continue for import return var
	append bool byte cap close complex complex64 complex128 copy delete error false float32 float64 imag int int8 int16 int32 int64 iota len make new nil
	panic print println real recover rune string true uint uint8 uint16 uint32 uint64 uintptr any min max clear comparable init main
	errors fmt driver bitio zserio ztype io bits math time
	MarshalZserio UnmarshalZserio ZserioBitSize ZserioCreatePackingContext ZserioInitPackingContext MarshalZserioPacked UnmarshalZserioPacked
	ZserioBitSizePacked LoadDefaultValues String Error Value Scan UnionTag UnionChoice undefined Clone
	v r w err ctx node c s i e tempValue bitPosition endBitPosition startBitPosition value context packingContext marshaler
	a A ab aB AB a_b A_b a_B _a a_ __ a1 A1 a__b test x_test linux amd64 Go goType self this
	JSON Json json array size Size length Length Type Package types`)
}

// usable reports whether Go has a way to express the name.
func usable(place, n string) bool {
	if Lex(n)[0].Kind != "ID" || n[0] == '_' {
		return false
	}
	switch {
	case strings.Contains(place, "package"):
		return n == strings.ToLower(n) && !token.IsKeyword(n) && n != "main"
	case strings.Contains(place, "item"), strings.Contains(place, "value"), strings.Contains(place, "template"), strings.Contains(place, "column"), strings.Contains(place, "table"), strings.Contains(place, "database"):
		return true
	case strings.Contains(place, "field"), strings.Contains(place, "parameter"), strings.Contains(place, "function"), strings.Contains(place, "case"):
		return !strings.Contains(n, "Zserio") && !strings.HasPrefix(n, "Union") && n != "LoadDefaultValues" && n != "undefined" && n != "s"
	}
	return true
}

// names puts names in every place of a definition.
func names(th bool, add func(Prog)) {
	places := map[string]string{
		"struct":             "package p; struct # { uint8 z; }; struct User { # f; # l[]; packed # q[2]; optional # o; };",
		"choice":             "package p; choice #(uint8 z) on z { case 1: uint8 y; default: uint8 x; }; struct User { #(1) f; #(2) l[]; };",
		"union":              "package p; union # { uint8 y; uint16 x; }; struct User { # f; # l[]; packed # q[2]; };",
		"enum":               "package p; enum uint8 # { ONE, TWO }; struct User { # f; # l[]; packed # q[2]; uint8 k if f == #.ONE; }; const # KK = #.TWO; choice Cc(# z) on z { case ONE: uint8 y; case #.TWO: ; };",
		"bitmask":            "package p; bitmask uint8 # { ONE, TWO }; struct User { # f; # l[]; packed # q[2]; uint8 k if isset(f, #.ONE); }; const # KK = #.TWO;",
		"subtype":            "package p; subtype uint8 #; struct User { # f; # l[]; packed # q[2]; }; const # KK = 4; enum # Ee { ONE };",
		"const":              "package p; const uint8 # = 3; struct User { bit<#> f; uint8 l[#]; uint8 k if f == #; }; enum uint8 Ee { ONE = # }; const uint8 KK = # + 1;",
		"template":           "package p; struct #<T> { T z; }; struct User { #<uint8> f; #<string> l[]; }; instantiate #<uint16> Inst;",
		"template parameter": "package p; struct Tt<#> { # z; # l[]; }; struct User { Tt<uint8> f; };",
		"instantiation":      "package p; struct Tt<T> { T z; }; instantiate Tt<uint8> #; struct User { # f; };",
		"field":              "package p; struct User { uint8 #; uint8 l[#]; uint8 k if # == 3; Pp(#) pp; bit<#> d; function uint8 ff() { return #; } }; struct Pp(uint8 z) { uint8 y[z]; }; struct Out { User u; uint8 l[u.#]; };",
		"optional field":     "package p; struct User { optional string #; uint8 after; };",
		"array field":        "package p; struct User { uint16 #[]; uint8 l[lengthof(#)]; packed uint8 m[2]; uint8 k if #[0] == 3; };",
		"packed field":       "package p; struct User { packed uint16 #[3]; }; struct Out { packed User u[]; };",
		"default field":      "package p; struct User { uint16 # = 3; string s = \"x\"; };",
		"choice field":       "package p; choice User(uint8 z) on z { case 1: uint8 #; default: uint8 other; };",
		"default case":       "package p; choice User(uint8 z) on z { case 1: uint8 other; default: string #; };",
		"union field":        "package p; union User { uint8 #; uint16 other; };",
		"parameter":          "package p; struct User(uint8 #) { uint8 y[#]; uint8 k if # == 3; bit<#> d; Pp(#) pp; function uint8 ff() { return #; } }; struct Pp(uint8 z) { uint8 y[z]; }; struct Out { uint8 q; User(q) u; User(3) l[]; };",
		"choice parameter":   "package p; choice User(uint8 #) on # { case 1: uint8 y; default: uint8 l[#]; }; struct Out { uint8 q; User(q) u; User(3) l[]; };",
		"union parameter":    "package p; union User(uint8 #) { uint8 y; uint8 l[#]; }; struct Out { uint8 q; User(q) u; User(3) l[]; };",
		"struct parameter":   "package p; struct Pp { uint8 z; }; struct User(Pp #) { uint8 y[#.z]; }; struct Out { Pp q; User(q) u; };",
		"function":           "package p; struct User { uint8 y; uint8 l[#()]; function uint8 #() { return y; } }; struct Out { User u; uint8 l[u.#()]; };",
		"union function":     "package p; union User { uint8 y; uint16 x; function uint8 #() { return 3; } };",
		"choice function":    "package p; choice User(uint8 z) on z { case 1: uint8 y; function uint8 #() { return z; } };",
		"enum item":          "package p; enum uint8 Ee { #, OTHER }; struct User { Ee y; uint8 k if y == Ee.#; }; const Ee KK = Ee.#; choice Cc(Ee z) on z { case #: uint8 y; case OTHER: ; };",
		"bitmask value":      "package p; bitmask uint8 Mm { #, OTHER }; struct User { Mm y; uint8 k if isset(y, Mm.#); }; const Mm KK = Mm.# | Mm.OTHER;",
		"table":              "package p; sql_table # { uint8 z sql \"PRIMARY KEY\"; string t; Ee e; }; enum uint8 Ee { ONE }; sql_database Db { # tab; };",
		"column":             "package p; sql_table Tab { uint8 # sql \"PRIMARY KEY\"; string t; }; sql_database Db { Tab tab; };",
		"database":           "package p; sql_table Tab { uint8 z; }; sql_database # { Tab tab; };",
		"table of database":  "package p; sql_table Tab { uint8 z; }; sql_database Db { Tab #; };",
		"package":            "package #; struct Foo { uint8 z; }; struct User { Foo f; Foo l[]; };",
		"last package":       "package q.#; struct Foo { uint8 z; }; struct User { Foo f; Foo l[]; };",
		"first package":      "package #.q; struct Foo { uint8 z; }; struct User { Foo f; Foo l[]; };",
	}
	var order []string
	for p := range places {
		order = append(order, p)
	}
	sort.Strings(order)
	put := func(must bool, place, text string, names ...string) {
		add(prog("names", place+" named "+join(names), file("p.zs", text), must, true))
	}
	for _, p := range order {
		for _, n := range idents() {
			put(usable(p, n), p, strings.ReplaceAll(places[p], "#", n), n)
		}
	}
	// two names of one scope
	pairs := map[string]string{
		"field and field":                 "struct S { uint8 #; uint16 @; };",
		"field and function":              "struct S { uint8 #; function uint8 @() { return 3; } };",
		"field and parameter":             "struct S(uint8 @) { uint8 #; uint8 l[@]; };",
		"field and its type":              "struct @ { uint8 z; }; struct S { @ #; @ l[]; };",
		"field and its enum":              "enum uint8 @ { ONE }; struct S { @ #; @ l[2]; };",
		"field and a constant":            "const uint8 @ = 3; struct S { uint8 #; uint8 l[#]; uint8 m[@]; };",
		"parameter and type":              "struct @ { uint8 z; }; struct S(uint8 #) { @ y[#]; };",
		"function and type":               "struct @ { uint8 z; }; struct S { @ y[#()]; function uint8 #() { return 3; } };",
		"union field and field":           "union U { uint8 #; uint16 @; };",
		"choice field and field":          "choice U(uint8 z) on z { case 1: uint8 #; case 2: uint16 @; };",
		"union field and function":        "union U { uint8 #; uint16 y; function uint8 @() { return 3; } };",
		"struct and struct":               "struct # { uint8 z; }; struct @ { uint8 y; };",
		"struct and enum":                 "struct # { uint8 z; }; enum uint8 @ { ONE };",
		"struct and constant":             "struct # { uint8 z; }; const uint8 @ = 3;",
		"struct and subtype":              "struct # { uint8 z; }; subtype uint8 @; struct S { # x; @ y; };",
		"constant and constant":           "const uint8 # = 3; const uint8 @ = 4;",
		"enum and item":                   "enum uint8 # { @, OTHER };",
		"item and item":                   "enum uint8 E { #, @ };",
		"item and a struct":               "enum uint8 E { #, OTHER }; struct @ { uint8 z; };",
		"item and a constant":             "enum uint8 E { #, OTHER }; const uint8 @ = 3;",
		"items of two enums":              "enum uint8 E { # }; enum uint8 F { @ };",
		"mask value and a struct":         "bitmask uint8 E { #, OTHER }; struct @ { uint8 z; };",
		"parameter and parameter":         "struct S(uint8 #, uint8 @) { uint8 l[#]; uint8 m[@]; };",
		"template parameters":             "struct S<#, @> { # z; @ y; }; struct U { S<uint8, string> s; };",
		"template parameter and a struct": "struct @ { uint8 z; }; struct S<#> { # z; @ y; }; struct U { S<uint8> s; };",
		"instantiation and instantiation": "struct S<T> { T z; }; instantiate S<uint8> #; instantiate S<string> @;",
		"instantiation and generated":     "struct #<T> { T z; }; struct @ { uint8 y; }; struct U { #<uint8> s; #<@> t; };",
	}
	order = nil
	for p := range pairs {
		order = append(order, p)
	}
	sort.Strings(order)
	two := strings.Fields("a A b Z ab aB Ab AB a_b A_b A_B a_ e_x E E_A E_b E_ONE S S_ uint8 UInt8 string z y U v Value")
	for _, p := range order {
		for _, x := range two {
			for _, y := range two {
				put(false, p, "package p; "+strings.NewReplacer("#", x, "@", y).Replace(pairs[p]), x, y)
			}
		}
	}
}

// typ is a type for the family of types.
type typ struct {
	name, decl, text, args string
	kind                   string // int, float, bool, string, bytes, enum, mask, compound
	value                  string // a constant of the type
}

func typs() []typ {
	var out []typ
	for _, t := range allTypes {
		k, v := "int", "1"
		switch t {
		case "bool":
			k, v = "bool", "true"
		case "string":
			k, v = "string", "\"s\""
		case "float16", "float32", "float64":
			k, v = "float", "1.5"
		case "extern", "bytes":
			k, v = "bytes", ""
		case "int:1":
			v = "-1"
		}
		out = append(out, typ{name: t, text: t, kind: k, value: v})
	}
	for _, b := range []string{"uint8", "int8", "uint64", "int64", "bit:5", "int:5", "bit:33", "varint", "varuint", "varsize", "varint16", "varuint32"} {
		out = append(out, typ{"enum of " + b, "enum " + b + " En { ONE, TWO = 5, THREE };", "En", "", "enum", "En.TWO"})
	}
	for _, b := range []string{"uint8", "uint64", "bit:5", "bit:33", "varuint", "varsize", "varuint16"} {
		out = append(out, typ{"bitmask of " + b, "bitmask " + b + " Ma { ONE, TWO = 8, THREE };", "Ma", "", "mask", "Ma.ONE | Ma.TWO"})
	}
	// without a length: a type for parameters and functions, but not for what
	// is encoded
	for _, t := range []string{"int", "bit"} {
		out = append(out, typ{"bare " + t, "", t, "", "int", "3"}, typ{"subtype of bare " + t, "subtype " + t + " Su;", "Su", "", "int", "3"})
	}
	c := func(name, decl, text, args string) { out = append(out, typ{name, decl, text, args, "compound", ""}) }
	c("struct", "struct St { uint8 z; };", "St", "")
	c("empty struct", "struct St { };", "St", "")
	c("choice", "choice Ch(uint8 z) on z { case 1: uint8 y; default: string x; };", "Ch", "(3)")
	c("union", "union Un { uint8 z; string y; };", "Un", "")
	c("struct with parameters", "struct St(uint8 p, string q) { uint8 z[p]; };", "St", "(3, \"a\")")
	c("template", "struct Te<T, U> { T z; U y[]; };", "Te<uint8, string>", "")
	c("nested template", "struct Te<T> { T z; }; union Tu<T> { T z; Te<T> y; };", "Tu<Te<Te<int:5>>>", "")
	c("template with a parameter", "struct Te<T>(T p) { uint8 z; };", "Te<uint16>", "(3)")
	c("subtype of a struct", "struct St { uint8 z; }; subtype St Su;", "Su", "")
	c("subtype of a template", "struct Te<T> { T z; }; subtype Te<string> Su;", "Su", "")
	c("instantiation", "struct Te<T> { T z; }; instantiate Te<bool> In;", "In", "")
	for _, t := range []string{"uint8", "int:5", "bit:64", "varsize", "bool", "string", "float32", "bytes", "extern"} {
		for _, o := range out[:len(allTypes)] {
			if o.name == t {
				out = append(out, typ{"subtype of " + t, "subtype " + t + " Su;", "Su", "", o.kind, o.value},
					typ{"subtype of subtype of " + t, "subtype " + t + " Su0; subtype Su0 Su;", "Su", "", o.kind, o.value},
					typ{"template argument " + t, "struct Te<T> { T z; }; struct Out { Te<" + t + "> o; };", t, "", o.kind, o.value})
			}
		}
	}
	out = append(out, typ{"subtype of an enum", "enum uint8 En { ONE, TWO }; subtype En Su;", "Su", "", "enum", "Su.TWO"},
		typ{"subtype of a bitmask", "bitmask uint8 Ma { ONE, TWO }; subtype Ma Su;", "Su", "", "mask", "Su.TWO"})
	return out
}

// types uses every type in every way.
func types(th bool, add func(Prog)) {
	uses := map[string]string{
		"field": "struct S { # x; };", "optional": "struct S { optional # x; };", "auto optional after": "struct S { bool c; # x if c; uint8 y; };",
		"array": "struct S { # x[]; };", "fixed array": "struct S { # x[3]; };", "counted array": "struct S { uint8 n; # x[n + 1]; };",
		"optional array": "struct S { optional # x[]; };", "packed array": "struct S { packed # x[]; };", "packed fixed": "struct S { packed # x[3]; };",
		"optional packed": "struct S { optional packed # x[]; };", "conditional packed": "struct S { uint8 n; packed # x[n] if n > 3; };",
		"aligned": "struct S { bit:3 a; align(8): # x; };", "aligned optional": "struct S { bit:3 a; align(32): optional # x; };",
		"aligned array": "struct S { bit:3 a; align(16): # x[]; };",
		"constraint":    "struct S { uint8 n; # x : n > 3; };", "all": "struct S { uint8 n; align(8): packed # x[n] if n > 2 : n < 9; };",
		"choice case": "choice S(uint8 k) on k { case 1: # x; case 2: case 3: ; };", "choice default": "choice S(uint8 k) on k { case 1: uint8 a; default: # x; };",
		"choice array": "choice S(uint8 k) on k { case 1: # x[]; default: packed # y[2]; };",
		"union field":  "union S { # x; uint8 a; };", "union array": "union S { # x[]; packed # y[3]; };",
		"several": "struct S { # a; # b; # c[]; };", "in packed struct": "struct I { # x; }; struct S { packed I is[]; };",
		"in packed union":    "union I { # x; uint8 y; }; struct S { packed I is[]; };",
		"in packed choice":   "choice I(uint8 k) on k { case 1: # x; default: uint8 y; }; struct S { packed I(3) is[]; };",
		"in packed optional": "struct I { optional # x; }; struct S { packed I is[]; };", "in packed array": "struct I { # x[]; packed # y[2]; }; struct S { packed I is[]; };",
		"template":       "struct Tm<T> { T x; T y[]; optional T z; packed T w[]; }; struct S { Tm<$> t; };",
		"template union": "union Tm<T> { T x; T y[]; }; struct S { Tm<$> t; };", "subtype": "subtype $ Sb; struct S { Sb x; packed Sb y[]; optional Sb z; };",
		"parameter":              "struct I($ p) { uint8 x; uint8 c if 1 < 2; }; struct S { # x; I(x) i; };",
		"parameter of an array":  "struct I($ p) { uint8 x; }; struct S { # x; I(x) i[]; packed I(x) j[2]; };",
		"union parameter":        "union I($ p) { uint8 x; string y; }; struct S { # x; I(x) i; };",
		"choice parameter":       "choice I(uint8 k, $ p) on k { case 1: uint8 x; }; struct S { # x; I(3, x) i; };",
		"array element argument": "struct I($ p) { uint8 x; }; struct S { # x[3]; I(x[0]) i; I(x[@index]) j[3]; };",
		"function":               "struct S { # x; function $ f() { return x; } };", "union function": "union S { # x; uint8 y; function $ f() { return x; } };",
		"choice function":      "choice S(uint8 k) on k { case 1: # x; default: uint8 y; function $ f() { return x; } };",
		"function of a member": "struct I { # x; function $ f() { return x; } }; struct S { I i; function $ f() { return i.f(); } function $ g() { return i.x; } };",
		"constant":             "const $ KK = %; struct S { uint8 a; };", "default": "struct S { # x = %; };", "default of template": "struct Tm<T> { T x = %; }; struct S { Tm<$> t; };",
		"constant default": "const $ KK = %; struct S { # x = KK; };", "constant argument": "struct I($ p) { uint8 x; }; struct S { I(%) i; };",
		"compare": "struct S { # x; uint8 y if x == (%); };", "compare fields": "struct S { # x; # z; uint8 y if x == z && x != z; };",
		"compare constant":  "const $ KK = %; struct S { # x; uint8 y if x == KK; };",
		"function constant": "struct S { uint8 a; function $ f() { return %; } };", "ternary": "struct S { bool c; # x; # z; function $ f() { return c ? x : z; } };",
		"ternary constant": "struct S { bool c; # x; function $ f() { return c ? x : %; } };",
		"selector":         "choice C($ k) on k { case %: uint8 a; default: uint8 b; }; struct S { # x; C(x) c; };", "label constant": "const $ KK = %; choice C($ k) on k { case KK: uint8 a; }; struct S { # x; C(x) c; };",
		"length": "struct S { # x; uint8 a[x]; };", "width": "struct S { # x; bit<x> a; int<x> b; };", "arithmetic": "struct S { # x; uint8 y if x + 1 > x * 2 - x / 3; uint8 z if (x & 3) == (x | 4) && (x ^ 5) == ~x && x << 1 == x >> 1; };",
		"valueof": "struct S { # x; uint8 y if valueof(x) == 1; uint8 a[valueof(x)]; };", "isset": "struct S { # x; uint8 y if isset(x, %); };",
		"numbits": "struct S { # x; uint8 y[numbits(x)]; };", "enum base": "enum $ Eb { ONE, TWO = 3 }; struct S { Eb x; packed Eb y[]; };", "mask base": "bitmask $ Mb { ONE, TWO = 4 }; struct S { Mb x; packed Mb y[]; };",
		"only a parameter": "struct I($ p) { uint8 x[p]; int<p + 1> y; uint8 z if p > 2; function $ f() { return p; } }; struct S { I(%) i; I(i.x[0]) k; I(i.f()) l[]; };",
		"table":            "sql_table S { uint32 id sql \"PRIMARY KEY\"; # x; }; sql_database D { S t; };", "virtual": "sql_table S { uint32 id; sql_virtual # x; };",
		"without rowid": "sql_table S { # x; uint8 id; sql \"primary key(id)\"; sql_without_rowid; };",
	}
	need := map[string]string{"constant": "vis", "default": "v", "default of template": "v", "constant default": "v", "constant argument": "v", "compare": "v", "compare fields": "v", "compare constant": "v",
		"function constant": "v", "ternary": "v", "ternary constant": "v", "selector": "s", "label constant": "s", "length": "i", "width": "i", "arithmetic": "i", "valueof": "e", "isset": "m", "numbits": "i", "only a parameter": "i",
		"enum base": "i", "mask base": "u", "function": "f", "union function": "f", "choice function": "f", "function of a member": "f", "parameter": "f", "parameter of an array": "f", "union parameter": "f",
		"choice parameter": "f", "array element argument": "f", "table": "t", "virtual": "t", "without rowid": "t"}
	var order []string
	for u := range uses {
		order = append(order, u)
	}
	sort.Strings(order)
	for _, t := range typs() {
		for _, u := range order {
			must := true
			switch need[u] {
			case "v", "vis":
				must = t.value != ""
			case "s":
				must = t.kind == "int" || t.kind == "bool" || t.kind == "enum" || t.kind == "mask"
			case "i", "u", "e", "m":
				must = t.name != "int:1" && t.name != "bit:1" && map[string]bool{"i": t.kind == "int", "u": false, "e": t.kind == "enum" || t.kind == "mask", "m": t.kind == "mask"}[need[u]]
			case "f", "t":
				must = t.args == "" // the type of a parameter or a function has no arguments
			}
			text := strings.NewReplacer("#", t.text+t.args, "$", t.text, "%", t.value).Replace(uses[u])
			if strings.Contains(uses[u], "$") && t.args != "" {
				must = false
			}
			if strings.Contains(t.name, "bare ") {
				must = u == "only a parameter" || u == "constant" || u == "function constant" || u == "constant argument"
			}
			add(prog("types", t.name+": "+u, file("p.zs", "package p; "+t.decl+" "+text), must, true))
		}
	}
}

const libText = `
struct St { uint8 z; };
enum uint8 En { ONE, TWO };
bitmask uint8 Ma { ONE, TWO };
const uint8 KK = 3;
const En KE = En.TWO;
const string KS = "s";
subtype uint8 Su;
subtype St Sb;
subtype En Se;
choice Ch(uint8 k) on k { case 1: uint8 y; default: St x; };
union Un { uint8 y; St x; };
struct Te<T> { T t; };
struct Pa(En e, St s) { uint8 y if e == En.ONE; };
instantiate Te<uint8> In;
struct Fn { uint8 n; En e; St s; function uint8 f() { return n; } function En g() { return e; } function St h() { return s; } };
`

// imports uses the definitions of other packages, one in each file.
func imports(th bool, add func(Prog)) {
	uses := map[string]string{ // by name: what has to be imported, declaration
		"field": "St|struct S { # x; };", "array": "St|struct S { # x[]; };", "optional": "St|struct S { optional # x; };", "packed": "St|struct S { packed # x[]; };",
		"enum field": "En|struct S { # x; };", "enum array": "En|struct S { packed # x[3]; };", "bitmask": "Ma|struct S { # x; # y[]; };", "subtype": "Su|struct S { # x; packed # y[]; optional # z; };",
		"subtype of struct": "Sb|struct S { # x; # y[]; };", "subtype of enum": "Se|struct S { # x; packed # y[]; };", "choice": "Ch|struct S { #(3) x; #(2) y[]; };", "union": "Un|struct S { # x; packed # y[]; };",
		"template": "Te|struct S { #<uint8> x; #<string> y[]; };", "template with its own type": "Te|struct Own { uint8 z; }; struct S { #<Own> x; #<Own> y[]; };", "instantiation": "In|struct S { # x; # y[]; };",
		"template argument": "St|struct Mine<T> { T x; T y[]; }; struct S { Mine<#> x; };", "template argument enum": "En|struct Mine<T> { T x; packed T y[]; }; struct S { Mine<#> x; };",
		"own subtype": "St|subtype # Own; struct S { Own x; };", "own subtype of enum": "En|subtype # Own; struct S { Own x; uint8 y if x == Own.TWO; };", "only subtype": "St|subtype # Own;",
		"constant length": "KK|struct S { uint8 x[#]; };", "constant width": "KK|struct S { bit<#> x; };", "constant condition": "KK|struct S { uint8 x; uint8 y if x > #; };", "constant of constant": "KK|const uint8 Own = # + 1; struct S { uint8 x[Own]; };",
		"string constant": "KS|struct S { string x = #; string y; uint8 z if y == #; };", "enum constant": "KE|struct S { uint8 x; }; choice Own(uint8 n) on n { case 3: uint8 y; };",
		"enum of constant": "KK|enum uint8 Own { A = #, B };", "bitmask of constant": "KK|bitmask uint8 Own { A = # };", "enum of subtype": "Su|enum # Own { A, B };", "bitmask of subtype": "Su|bitmask # Own { A, B };",
		"constant of enum": "En|const # Own = #.TWO;", "constant of subtype": "Su|const # Own = 4;", "constant of bitmask": "Ma|const # Own = #.ONE | #.TWO;", "constant of value": "En|const uint8 Own = valueof(#.TWO);",
		"item": "En|struct S { # x; uint8 y if x == #.TWO; };", "item default": "En|struct S { # x = #.TWO; };", "mask default": "Ma|struct S { # x = #.TWO; };", "valueof": "En|struct S { uint8 x[valueof(#.TWO)]; };",
		"isset": "Ma|struct S { # x; uint8 y if isset(x, #.TWO); };", "function": "St|struct S { # x; function # f() { return x; } };", "function of enum": "En|struct S { uint8 x; function # f() { return #.TWO; } };",
		"parameter": "St|struct S(# p) { uint8 x[p.z]; };", "enum parameter": "En|struct S(# p) { uint8 x if p == #.TWO; };", "union parameter": "St|union S(# p) { uint8 x[p.z]; };",
		"selector": "En|choice S(# p) on p { case ONE: uint8 x; case #.TWO: uint8 y; };", "mask selector": "Ma|choice S(# p) on p { case ONE: uint8 x; case TWO: uint8 y; };", "choice case": "St|choice S(uint8 k) on k { case 1: # x; default: # y[]; };",
		"union field": "St|union S { # x; # y[]; };", "argument": "Fn|struct Own(uint8 p) { uint8 x[p]; }; struct S { # f; Own(f.n) o; Own(f.f()) q; Own(f.s.z) r[]; };", "call": "Fn|struct S { # f; uint8 x[f.f()]; };",
		"parameterised": "Pa,Fn|struct S { Fn f; #(f.e, f.s) x; };", "item argument": "Pa,En,St|struct S { St s; #(En.TWO, s) x; #(En.ONE, s) y[]; };", "member of a member": "Fn|struct S { # f; uint8 x if f.s.z == 3; };",
		"enum member": "Fn,En|struct S { # f; uint8 x if f.e == En.TWO; uint8 y if f.g() == En.ONE; };", "table": "En|sql_table S { uint32 id; # e; };", "table of template": "Te|sql_table S { uint32 id; #<uint8> e; };",
		"nothing": "St|struct S { uint8 x; };", "nothing at all": "St|",
	}
	var order []string
	for u := range uses {
		order = append(order, u)
	}
	sort.Strings(order)
	pkgs := [][2]string{{"p", "lib"}, {"p", "a.b"}, {"y.lib", "x.lib"}, {"p", "p.q"}, {"p.q", "p"}, {"p", "io"}, {"p", "errors"}, {"p", "fmt"}, {"p", "ztype"}, {"p", "zserio"}, {"p", "bitio"},
		{"p", "driver"}, {"p", "v"}, {"p", "err"}, {"p", "len"}, {"p", "nil"}, {"p", "error"}, {"p", "append"}, {"p", "uint"}, {"p", "q.make"}, {"p", "a_b"}, {"p", "a.b_c"}, {"P", "Lib"}, {"p", "lib.Sub"}, {"zserio", "ztype"}, {"io", "x.io"}, {"p", "S"}, {"p", "a1.b2.c3.d4"}}
	for _, pk := range pkgs {
		for _, u := range order {
			what, decl, _ := strings.Cut(uses[u], "|")
			names := strings.Split(what, ",")
			lib := genw.File{Name: "b.zs", Src: "package " + pk[1] + ";" + libText}
			qualified := func(text string) string {
				return strings.ReplaceAll(strings.ReplaceAll(text, "#.", "~."), "#", pk[1]+"."+names[0])
			}
			short := strings.ReplaceAll(decl, "#", names[0])
			each := ""
			for _, n := range names {
				each += "import " + pk[1] + "." + n + ";\n"
			}
			put := func(form, imp, text string, must bool, more ...genw.File) {
				add(prog("imports", fmt.Sprintf("%s from %s in %s, %s", u, pk[1], pk[0], form),
					append([]genw.File{{Name: "a.zs", Src: "package " + pk[0] + ";\n" + imp + text}, lib}, more...), must, true))
			}
			put("all imported", "import "+pk[1]+".*;\n", short, true)
			put("one imported", each, short, true)
			put("imported twice", each+"import "+pk[1]+".*;\n", short, true)
			if strings.Contains(decl, "#") && !strings.Contains(decl, "#.") && strings.ToUpper(names[0]) != names[0] {
				put("qualified", "import "+pk[1]+".*;\n", qualified(decl), true)
			}
			other := genw.File{Name: "c.zs", Src: "package " + pk[1] + ".other;\nstruct Other { uint8 z; };\nconst uint8 KO = 4;\n"}
			put("with a use of another", "import "+pk[1]+".*;\nimport "+pk[1]+".other.*;\n", short+" struct Also { Other o; };", true, other)
			put("with another that is not used", "import "+pk[1]+".other.*;\nimport "+pk[1]+".*;\n", short, true, other)
			between := genw.File{Name: "c.zs", Src: "package between;\nimport " + pk[1] + ".*;\nstruct Mid { St s; En e; Fn f; };\n"}
			put("and through another", "import "+pk[1]+".*;\nimport between.*;\n", short+" struct Also { Mid m; uint8 z if m.e == En.TWO && m.s.z == 3 && m.f.f() == m.f.n; };", true, between)
			if u == "nothing" {
				put("through another only", "import between.*;\n", short+" struct Also { Mid m; uint8 z if m.s.z == 3 && m.f.f() == m.f.n; uint8 y[m.f.s.z]; };", true, between)
			}
		}
	}
}

// Programs are all schemas of the check.
func Programs(th bool, repo []Set, add func(Prog)) {
	mutants(Sets, add)
	options(Sets, add)
	options(repo, add)
	if th {
		mutants(repo, add)
	}
	comments(th, add)
	names(th, add)
	types(th, add)
	imports(th, add)
}
