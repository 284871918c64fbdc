package gsch

import (
	"fmt"
	"strings"
)

// C17Sets are further sets in which orders could matter.
func C17Sets() []Set {
	out := []Set{
		parse("two errors", `
--- a.zs
package a;
import b.*;
struct S { Nope x; };
--- b.zs
package b;
struct T { Never y; };
`),
		parse("package in two files", `
--- a.zs
package a;
struct S { uint8 x; };
--- b.zs
package a;
struct S { uint16 x; };
`),
		parse("same directory", `
--- a.zs
package lib.Sub;
struct S { uint8 x; };
struct Only { uint8 x; };
--- b.zs
package lib.sub;
struct S { uint16 x; };
enum uint8 E { A };
`),
		parse("instance names", `
--- a.zs
package a;
struct T<X> { X v; };
struct A { uint8 x; };
struct A_B { uint8 x; };
struct B { uint8 x; };
struct P<X, Y> { X v; Y w; };
struct T_A { uint16 z; };
struct U1 { T<A> a; };
struct U2 { T<b.A> a; };
struct U3 { P<A, B> a; };
struct U4 { P<A_B, A> a; P<A, B_A> b; };
struct B_A { uint8 q; };
subtype T<uint8> St;
struct U5 { St s; T<St> t; T<T<A>> u; };
--- b.zs
package b;
import a.*;
struct A { uint16 y; };
struct U1 { T<A> a; T<a.A> b; };
struct U2 { P<uint8, string> c; };
`),
		parse("recursive templates", `
--- a.zs
package a;
struct N<X> { X v; N<X> next[]; optional M<X> m; };
struct M<Y> { Y w; optional N<Y> n; };
struct U { N<uint8> a; M<string> b; };
struct V { M<uint8> a; N<string> b; };
`),
		parse("item names everywhere", `
--- a.zs
package a;
import b.*;
import c.*;
enum uint8 E1 { ONE, TWO };
enum uint8 E2 { TWO, ONE };
choice C1(E1 e) on e { case ONE: uint8 a; case TWO: uint16 b; };
choice C2(E2 e) on e { case ONE: uint8 a; case TWO: uint16 b; };
choice C3(E3 e) on e { case ONE: uint8 a; case TWO: uint16 b; };
choice C4(E4 e) on e { case ONE: uint8 a; case TWO: uint16 b; };
struct S { E1 a = E1.ONE; E2 b = E2.ONE; E3 c = E3.ONE; E4 d = E4.TWO; };
struct T { E1 a; uint8 x if a == E1.TWO && valueof(E2.TWO) == 0 && valueof(E3.ONE) == 7; };
--- b.zs
package b;
enum uint8 E3 { TWO = 9, ONE = 7 };
const uint8 ONE = 200;
--- c.zs
package c;
enum uint8 E4 { ONE = 5, TWO };
const uint8 TWO = 100;
`),
		parse("one definition imported along many ways", `
--- a.zs
package a;
import b.*;
import c.*;
import d.D;
struct A { B b; C c; D d; uint8 x[KB + KC]; };
--- b.zs
package b;
import d.*;
struct B { D d; };
const uint8 KB = KD + 1;
--- c.zs
package c;
import d.*;
subtype D C;
const uint8 KC = KD * 2;
--- d.zs
package d;
struct D { uint8 x; };
const uint8 KD = 2;
`),
	}
	// many packages and many definitions whose names come in all orders
	var b strings.Builder
	for i := 0; i < 5; i++ {
		fmt.Fprintf(&b, "--- p%d.zs\npackage p%d;\n", i, i)
		for j := 0; j < 5; j++ {
			if j != i {
				fmt.Fprintf(&b, "import p%d.*;\n", j)
			}
		}
		fmt.Fprintf(&b, "const uint8 K%d = %s;\n", i, map[bool]string{true: "1", false: fmt.Sprintf("K%d + %d", (i+1)%5, i)}[i == 3])
		fmt.Fprintf(&b, "enum uint8 E%d { A, B = K%d + 1, C };\n", i, i)
		fmt.Fprintf(&b, "struct S%d { uint8 f[K%d]; bit<K%d> g; };\n", i, i, i)
		fmt.Fprintf(&b, "subtype uint8 T%d;\nbitmask uint8 M%d { X, Y };\nunion U%d { uint8 a; S%d s; };\n", i, i, i, i)
	}
	out = append(out, parse("many packages", b.String()))
	return out
}
