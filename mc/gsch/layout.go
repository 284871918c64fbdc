package gsch

// LayoutSets are small schemas with the constructs that are not in Sets, for
// the check that layout does not matter.
var LayoutSets = []Set{
	parse("sql", `
--- a.zs
package a;
import b.R;
import c.*;
const string NAME = "table";
enum uint8 E { A, B = 4, C };
bitmask uint8 M { P = 1, Q = 2 };
struct Blob { uint8 x; };
sql_table Tab { int32 id sql "PRIMARY KEY"; string name; Blob blob sql "NOT NULL"; sql_virtual uint8 v; sql "UNIQUE(name)"; };
sql_table Vt using fts4 { string a; E e; sql_without_rowid; };
sql_table Gen<T> { int32 id; T blob; };
sql_database Db { Tab tab; Vt vt; };
rule_group Rules { rule "one"; rule "two"; };
service Srv { Blob get(Blob); void_t put(Blob); };
struct void_t { };
pubsub Ps { topic("x/y") Blob both; publish topic("x/z") Blob out; subscribe topic("in") Blob in; };
struct S { E e; M m; R r; };
--- b.zs
package b;
struct R { uint8 a; };
--- c.zs
package c;
struct Other { uint8 a; };
`),
	parse("fields", `
--- a.zs
package x.y.z;
struct S {
  uint8 n; align(8): uint16 a; align(16): optional int32 b; optional packed uint8 c[n * 2]; bit:3 d = 5; int:12 e = -7;
  uint8 f if n > 2 && n != 9; packed T g[]; bit<n % 7 + 1> h; uint16 i[3]; T j[n]; uint32 k = 0x1F; uint8 l = 017; uint8 m = 101b;
  float32 o = 1.5; float64 p = 1e3; string q = "a\tb"; bool r = true; string s = "a" + "b" if n == 1; E t = E.B;
  C(n) u; C(@index) v[2]; P(n, r) w;
  function uint32 total() { return n * 10 + 3; }
  function bool flag() { return n < 10 || n >= 100; }
};
struct T { varsize a; varint b; };
struct P(uint8 a, bool b) { uint8 x if b; uint8 y[a]; };
enum bit:4 E { A = 1, B, @deprecated C, @removed D = 9, };
bitmask bit:10 M { A, B = 16, C, };
choice C(uint8 k) on k { case 0: case 1: uint8 a; case 2: ; case 3: packed uint16 b[k]; default: string d; function uint8 z() { return k + 1; } };
union U { uint8 a; T b; string c[]; function uint8 z() { return 7; } };
subtype bit:5 Five;
subtype T SubT;
const Five FIVE = 5;
const int32 NEG = -(3 + 4) * 2 << 1;
const string TXT = "a" + "b";
const bool YES = !false && 3 >= 2 || 1 == 2;
const E CE = E.B;
const M CM = M.A | M.C & ~M.B;
const float64 FL = 1.25 + 3;
`),
	parse("generics", `
--- a.zs
package a;
struct B<T> { T v; };
struct D<T, U> { B<T> a; B<B<U>> b; T c[]; packed U d[2]; };
struct I { D<uint8, bit:3> a; B<string> b; B<I2> c; D<I2, B<int8>> d; };
struct I2 { uint8 x; };
choice CC<T>(uint8 k) on k { case 1: T a; default: B<T> b; };
union UU<A, B> { A a; B b; };
struct K { CC<I2>(2) a; UU<uint8, I2> b; };
instantiate D<int16, uint64> DI;
instantiate B<uint16> BI;
subtype BI SubBI;
struct L { DI a; SubBI b; };
`),
}
