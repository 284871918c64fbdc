package gsch

import (
	"fmt"
	"strings"
)

// Defs are definitions: a kind and a name for each.
type Def struct{ Kind, Name string }

// DefKinds are the kinds of definitions.
var DefKinds = []string{"struct", "enum", "bitmask", "choice", "union", "subtype", "const", "instance"}

// Text returns the source of a definition.
func (d Def) Text() string {
	return strings.ReplaceAll(map[string]string{
		"struct":   "struct # { uint8 a; };",
		"enum":     "enum uint8 # { ONE };",
		"bitmask":  "bitmask uint8 # { ONE };",
		"choice":   "choice #(uint8 k) on k { case 1: uint8 a; };",
		"union":    "union # { uint8 a; };",
		"subtype":  "subtype uint8 #;",
		"const":    "const uint8 # = 3;",
		"table":    "sql_table # { uint32 id; };",
		"database": "sql_database # { Zt t; };",
		"instance": "instantiate Zq<uint8> #;",
	}[d.Kind], "#", d.Name)
}

// DefSchema is the source of a package with the definitions.
func DefSchema(pkg string, defs []Def) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s;\n", pkg)
	has := map[string]bool{}
	for _, d := range defs {
		has[d.Kind] = true
		b.WriteString(d.Text() + "\n")
	}
	if has["database"] {
		b.WriteString("sql_table Zt { uint32 id; };\n")
	}
	if has["instance"] {
		b.WriteString("struct Zq<T> { T t; };\n")
	}
	return b.String()
}

// FileNames are names of definitions whose file names could be the same, or
// special to the Go tools.
var FileNames = []string{"AB", "Ab", "A_b", "A_B", "A_B_", "A__B", "_AB", "Ab1", "AB_1", "A1b", "Ab_1_1", "AbC", "ABc", "A_bC", "Pkg", "PKG", "P_kg", "Pkg1", "Pkg_1",
	"Test", "ATest", "A_test", "ATEST", "Linux", "ALinux", "A_linux", "A_linux_", "AAmd64", "A_Windows_Test", "X", "XAB", "X_AB"}

// LongNames are names that are the same in their first n characters.
func LongNames(n, count int, word string) []string {
	base := strings.Repeat(word, n/len(word)+1)[:n]
	var out []string
	for i := 0; i < count; i++ {
		out = append(out, "L"+base+"X"+string(rune('a'+i%26))+strings.Repeat("y", i/26))
	}
	return out
}
