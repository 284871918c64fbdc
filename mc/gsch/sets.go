// Package gsch holds small sets of schema files for the checks of the
// generator.
package gsch

import (
	"sort"
	"strings"

	"mc/genw"
)

type Set struct {
	Name  string
	Files []genw.File
}

// parse splits "--- name" sections.
func parse(name, text string) Set {
	s := Set{Name: name}
	for _, part := range strings.Split(text, "--- ")[1:] {
		n, src, _ := strings.Cut(part, "\n")
		s.Files = append(s.Files, genw.File{Name: strings.TrimSpace(n), Src: src})
	}
	sort.Slice(s.Files, func(i, j int) bool { return s.Files[i].Name < s.Files[j].Name })
	return s
}

// Sets are valid schemas; together they use every construct of the language
// that go-zserio takes.
var Sets = []Set{
	parse("templates", `
--- a.zs
package a;
import b.*;
struct Box<T> { T v; };
struct Pair<A, B> { A x; B y; Box<A> z; };
struct P { uint8 n; };
struct User { Box<uint8> a; Box<uint16> b; Box<P> c; Pair<P, Box<string>> d; Box<b.Q> e; };
choice Sel<T>(uint8 k) on k { case 1: Box<T> u; default: T w; };
union Un<T> { T p; Box<T> q; };
struct Use2 { Sel<uint32>(3) s; Un<P> u; Un<uint8> v; };
instantiate Box<string> BoxString;
subtype Box<int8> SubBox;
struct Use3 { SubBox s; BoxString t; };
--- b.zs
package b;
import a.*;
struct Q { uint8 k; };
struct P { uint16 w; };
struct Use { Box<P> a; Box<Q> b; Pair<Q, P> c; };
`),
	parse("samename", `
--- a.zs
package a;
import lib.one.*;
import lib.two.*;
struct S { lib.one.T x; lib.two.T y; One o; Two t; };
struct G<X> { X v; };
struct U { G<lib.one.T> a; G<lib.two.T> b; };
--- lone.zs
package lib.one;
struct T { uint8 a; };
struct One { T t; };
const uint8 K = 3;
--- ltwo.zs
package lib.two;
struct T { uint16 b; };
struct Two { T t; };
const uint8 K2 = 4;
`),
	parse("ambiguous", `
--- a.zs
package a;
import l1.*;
import l2.*;
struct S { T x; bit<K> y; };
--- l1.zs
package l1;
struct T { uint8 a; };
const uint8 K = 3;
--- l2.zs
package l2;
struct T { uint16 b; };
const uint8 K = 4;
`),
	parse("enums", `
--- a.zs
package a;
import e.*;
enum uint8 Col { RED, GREEN = 4, BLUE };
enum uint8 Mood { BLUE, FINE, RED };
bitmask uint8 Fl { BLUE, RW = 0x10, GREEN };
choice C(Col c) on c { case RED: uint8 a; case BLUE: uint16 b; case GREEN: ; };
choice D(Mood c) on c { case RED: uint8 a; case BLUE: uint16 b; default: ; };
choice E(Far c) on c { case NEAR: uint8 a; case AWAY: uint16 b; default: ; };
choice M(Fl c) on c { case BLUE: uint8 a; case RW: uint16 b; default: ; };
struct S { Col c; Mood m; Fl f; C(c) cc; D(m) d; E(Far.NEAR) e; M(f) mm; uint8 n if c == Col.BLUE && m != Mood.BLUE; };
const Col DEF = Col.GREEN;
struct T { Col c = Col.BLUE; Mood m = Mood.BLUE; Fl f = Fl.BLUE | Fl.RW; };
--- e.zs
package e;
enum uint16 Far { NEAR, AWAY = 300 };
enum int8 Col { RED = -4, GREEN };
`),
	parse("consts", `
--- a.zs
package a;
import b.*;
import c.*;
const uint8 A1 = 3;
const uint8 A2 = B1 + 1;
const uint8 A3 = C1 * A1;
enum uint8 E { X = A1, Y = A1 + 4, Z };
struct S { bit:3 f; bit<A2> g; uint8 arr[A3]; };
--- b.zs
package b;
import a.*;
import c.*;
const uint8 B1 = A1 + 1;
const uint16 B2 = C2 + A1;
struct S { bit<B1> g; E e; };
bitmask uint16 F { P = B1, Q, R = 64 };
--- c.zs
package c;
import a.*;
import b.*;
const uint8 C1 = B1 + A1;
const uint16 C2 = valueof(E.Z) + 1;
subtype uint8 Small;
const Small C3 = C1;
const string NAME = "c";
`),
	parse("files", `
--- a.zs
package a;
struct FooBar { uint8 a; };
struct Foo_Bar { uint16 a; };
struct Foobar { uint16 a; };
struct FOOBAR { uint16 a; };
enum uint8 FooBAR { A };
union Foo_bar { uint8 x; };
bitmask uint8 Foo_BAR { A };
choice FOO_BAR(uint8 k) on k { case 1: uint8 x; };
struct Pkg { uint8 a; };
struct X_test { uint8 a; };
struct Y_windows { uint8 a; };
`),
	parse("casepkg", `
--- a1.zs
package my.lib;
struct Foo { uint8 a; };
struct Bar { uint8 a; };
--- a2.zs
package my.lib2;
import my.lib.*;
struct Foo { uint8 a; Bar b; };
--- a3.zs
package my;
import my.lib.*;
import my.lib2.*;
struct Foo { my.lib.Foo a; my.lib2.Foo b; Bar c; };
`),
	parse("functions", `
--- a.zs
package a;
import b.*;
import c.H;
struct H0 { uint8 len; function uint8 twice() { return len * 2; } function bool big() { return twice() > 10; } };
struct S { H h; uint8 a[h.twice()]; uint8 b if h.big(); Q q; uint8 c[q.far()]; bit<h.len> d; };
choice C(H h) on h.twice() { case 2: uint8 a; default: uint16 b; };
union U { uint8 a; H h; function uint8 z() { return 3; } };
struct V(H p) { uint8 x if p.big(); };
struct W { H h; V(h) v; C(h) c; U u; V(h) vs[3]; };
--- b.zs
package b;
import c.*;
struct Q { H h; function uint8 far() { return h.twice() + 1; } };
--- c.zs
package c;
struct H { uint8 len; function uint8 twice() { return len * 2; } function bool big() { return twice() > 10; } };
`),
	parse("subtypes", `
--- a.zs
package a;
import b.*;
import c.A;
import c.S0;
subtype B AB;
subtype S T;
struct S { A a; AB b; FarB c; };
struct R { T t; A arr[]; packed AB parr[3]; T ts[2]; };
subtype bytes By;
subtype extern Ex;
subtype varsize Vs;
struct R0 { S0 s; };
--- b.zs
package b;
import c.*;
subtype A B;
subtype S0 FarB2;
subtype int16 FarB;
struct S2 { B b; FarB2 s; };
--- c.zs
package c;
subtype uint8 A;
struct S0 { A a; };
`),
	parse("members", `
--- a.zs
package a;
struct Empty { };
struct All {
  uint8 u8; uint16 u16; uint32 u32; uint64 u64; int8 i8; int16 i16; int32 i32; int64 i64;
  bit:5 b5; int:7 s7; varint vi; varint16 vi16; varint32 vi32; varint64 vi64;
  varuint vu; varuint16 vu16; varuint32 vu32; varuint64 vu64; varsize vs;
  float16 f16; float32 f32; float64 f64; bool bo; string st; extern ex; bytes by;
  uint8 d = 4; align(8): optional uint16 o; optional string os; packed uint32 pa[]; implicitless il[4];
  uint8 n; uint8 arr[n + 1]; uint8 opt if n > 3; uint8 cons : cons < 9; bit<n> dyn; int<n + 1> sdyn;
  Sub(n) sub; Sub(@index) subs[n];
};
struct implicitless { uint8 q; };
struct Sub(uint8 p) { uint8 x[p]; };
choice Ch(uint8 k) on k { case 1: case 2: uint8 a; case 3: string b; case 4: Sub(k) s; default: extern z; };
choice Cb(bool k) on k { case true: uint8 a; case false: ; };
union Un { uint8 a; string b[]; Sub(3) s; All l; };
`),
	parse("comments", `
--- a.zs
/** Package comment. */
package a;
// line
/* block */
/**
 * Struct comment.
 * @param x y
 */
struct S {
  /** Field comment. */
  uint8 a; // trailing
  /* b */ uint8 b; /** after */
};
/** Enum. */
enum uint8 E { /** Item A. */ A, /** Item B. */ B };
/** Choice. */
choice C(uint8 k) on k { /** one */ case 1: /** field */ uint8 a; /** def */ default: ; };
/** Union */
union U { /** f */ uint8 a; };
/** Const */
const uint8 K = 3;
/** Subtype */
subtype uint8 Su;
/** Mask */
bitmask uint8 M { /** A */ A };
`),
	parse("expressions", `
--- a.zs
package a;
enum uint8 E { A, B };
bitmask uint8 M { P, Q };
struct In { uint8 v; uint8 l[2]; };
struct S {
  uint8 a; int16 b; bool c; string s; float64 f; E e; M m; In i; uint8 l[3]; optional uint8 o;
  uint8 x1 if (a + 3) * 2 - b / 4 % 5 < a << 2 || !c && (a & 3) == (a | 1 ^ ~a);
  uint8 x2 if e == E.A ? c : isset(m, M.P);
  uint8 x3 if lengthof(l) > numbits(a) && l[1] != i.l[0] && i.v >= 1;
  uint8 x4 if valueof(e) == 0x1F && valueof(m) <= 017 && a == 101b;
  uint8 x5 if s == "abc" && f > 1.5e3 || f < -2.0f;
  function int64 g() { return -a + (+b); }
  function string h() { return c ? "x" : s; }
};
`),
}

// All is the union of the sets as one run: the packages get the set's name as prefix.
func ByName(n string) Set {
	for _, s := range Sets {
		if s.Name == n {
			return s
		}
	}
	panic(n)
}
