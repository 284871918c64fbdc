package gsch

import (
	"fmt"
	"strings"
)

// Invalid returns schemas that have to be refused: what is wrong in each of
// them is one construct of an otherwise valid schema.
func Invalid() []Set {
	var out []Set
	add := func(group, body string, files ...string) {
		text := "--- a.zs\npackage a;\n" + strings.Join(strings.Split(strings.TrimSpace(body), "\n"), " ") + "\n"
		for _, f := range files {
			text += "--- " + f + "\n"
		}
		out = append(out, parse(fmt.Sprintf("invalid: %s: %s", group, strings.Join(strings.Fields(body), " ")), text))
	}
	lines := func(group, format, bodies string) {
		for _, b := range strings.Split(strings.TrimSpace(bodies), "\n") {
			b = strings.TrimSpace(b)
			if b == "" {
				continue
			}
			if strings.Count(format, "%s") == 1 {
				b = strings.Replace(format, "%s", b, 1)
			}
			add(group, b)
		}
	}
	lines("duplicate", "", `
const uint8 X = 1; const uint8 X = 2;
const uint8 X = 1; struct X { uint8 a; };
struct X { uint8 a; }; struct X { uint16 a; };
struct X { uint8 a; }; struct X { uint8 a; };
struct X { uint8 a; }; choice X(uint8 k) on k { case 1: uint8 a; };
struct X { uint8 a; }; union X { uint8 a; };
struct X { uint8 a; }; subtype uint8 X;
subtype uint8 X; subtype uint8 X;
subtype uint8 X; subtype uint16 X;
enum uint8 X { A }; enum uint8 X { B };
enum uint8 X { A }; bitmask uint8 X { B };
bitmask uint8 X { A }; bitmask uint8 X { B };
union X { uint8 a; }; union X { uint8 b; };
choice X(uint8 k) on k { case 1: uint8 a; }; choice X(uint8 k) on k { case 1: uint8 a; };
struct T<A> { A a; }; instantiate T<uint8> X; instantiate T<uint16> X;
struct T<A> { A a; }; instantiate T<uint8> X; struct X { uint8 a; };
struct T<A> { A a; }; struct T<A, B> { A a; B b; };
struct X { uint8 a; uint8 a; };
struct X { uint8 a; uint16 b; string a; };
struct X(uint8 a) { uint8 a; };
struct X(uint8 a, uint8 a) { uint8 b; };
struct X(uint8 a, uint16 a) { uint8 b; };
struct X { uint8 a; function uint8 a() { return 1; } };
struct X { uint8 a; function uint8 b() { return 1; } function uint8 b() { return 2; } };
struct X<T, T> { T a; }; struct Y { X<uint8, uint8> x; };
union X { uint8 a; uint16 a; };
union X { uint8 a; function uint8 a() { return 1; } };
choice X(uint8 k) on k { case 1: uint8 a; case 2: uint8 a; };
choice X(uint8 k) on k { case 1: uint8 a; default: uint8 a; };
choice X(uint8 k) on k { case 1: uint8 a; case 1: uint8 b; };
choice X(uint8 k) on k { case 1: case 1: uint8 b; };
choice X(uint8 k) on k { case 1: uint8 a; case 2 - 1: uint8 b; };
choice X(bool k) on k { case true: uint8 a; case !false: uint8 b; };
enum uint8 E { A, B }; choice X(E k) on k { case A: uint8 a; case E.A: uint8 b; };
enum uint8 E { A, A };
enum uint8 E { A, B, A };
enum uint8 E { A = 1, B = 1 };
enum uint8 E { A, B = 0 };
enum uint8 E { A = 1, B = 0, C };
bitmask uint8 E { A, A };
bitmask uint8 E { A = 1, B = 2, A = 4 };
`)
	lines("constants", "const %s;", `
uint8 X = "a"
uint8 X = true
uint8 X = 1.5
uint8 X = 256
uint8 X = -1
uint16 X = 65536
uint32 X = 4294967296
uint64 X = -1
int8 X = 128
int8 X = -129
int16 X = 32768
int32 X = 2147483648
int64 X = 9223372036854775808
bit:3 X = 8
int:3 X = 4
int:3 X = -5
varuint16 X = 32768
varint16 X = 16384
varuint32 X = 536870912
varint32 X = 268435456
varsize X = 2147483648
uint64 X = 18446744073709551616
bool X = 1
bool X = "true"
bool X = 0.5
string X = 1
string X = true
string X = 1.5
float32 X = "a"
float64 X = true
uint8 X = Y
uint8 X = X
uint8 X = X + 1
uint8 X = 1 / 0
uint8 X = 1 % 0
uint8 X = 1 << -1
uint8 X = 1 + "a"
uint8 X = 1 + true
string X = "a" + 1
string X = "a" - "b"
string X = "a" * 2
string X = -"a"
bool X = !1
bool X = !"a"
bool X = 1 && true
bool X = true || 0
bool X = "a" && true
bool X = true + false
bool X = true < false
bool X = true & false
bool X = 1 == "a"
bool X = 1 == true
bool X = "a" < 1
uint8 X = ~1.5
uint8 X = ~true
uint8 X = 1.5 | 2
uint8 X = 1.5 << 1
uint8 X = 3 >> 1.5
uint8 X = 1 ? 2 : 3
uint8 X = "a" ? 2 : 3
uint8 X = true ? "a" : 3
string X = true ? "a" : 3
uint8 X = numbits("a")
uint8 X = numbits(true)
uint8 X = lengthof(1)
uint8 X = valueof(1)
bool X = isset(1, 2)
uint8 X = @index
uint8 X = f()
uint8 X = 1()
uint8 X = 1[0]
uint8 X = "a".b
bytes X = 1
extern X = 1
`)
	lines("constants", "", `
const uint8 A = B; const uint8 B = A;
const uint8 A = B + 1; const uint8 B = C; const uint8 C = A;
struct S { uint8 a; }; const S X = 1;
struct S { uint8 a; }; const uint8 X = S;
struct S { uint8 a; }; const uint8 X = S.a;
enum uint8 E { A }; const E X = 0;
enum uint8 E { A }; const E X = E.B;
enum uint8 E { A }; const uint8 X = E.A;
enum uint8 E { A }; enum uint8 F { B }; const E X = F.B;
enum uint8 E { A }; const E X = E;
bitmask uint8 M { A }; const M X = 1;
bitmask uint8 M { A }; const M X = M.B;
bitmask uint8 M { A }; bitmask uint8 N { B }; const M X = N.B;
enum uint8 E { A }; enum uint8 F { B }; const bool X = E.A == F.B;
enum uint8 E { A }; const uint8 X = E.A + 1;
enum uint8 E { A }; const uint8 X = valueof(E);
`)
	over := []string{"9223372036854775807 + 1", "9223372036854775807 * 2", "-9223372036854775807 - 2", "3 - -9223372036854775807", "1 << 63", "-1 << 64", "3 << 62", "1 << 200", "-(-9223372036854775807 - 1)", "(-9223372036854775807 - 1) / -1", "(-9223372036854775807 - 1) * -1", "4294967296 * 4294967296", "0 * (9223372036854775807 + 1)", "9223372036854775807 + 9223372036854775807 + 3"}
	for _, o := range over {
		add("overflow", "const int64 X = "+o+";")
		add("overflow", "const bool X = "+o+" > 0;")
		add("overflow", "enum int64 E { A = "+o+" };")
		add("overflow", "bitmask uint64 M { A = "+o+" };")
		add("overflow", "struct S { uint8 a["+o+"]; };")
		add("overflow", "struct S { int64 a = "+o+"; };")
		add("overflow", "struct S { uint8 k; uint8 a if k > "+o+"; };")
		add("overflow", "struct S { uint8 k; bit<"+o+"> a; };")
		add("overflow", "struct S { uint8 k; function int64 f() { return k + ("+o+"); } };")
		add("overflow", "struct P(int64 p) { uint8 x; }; struct S { P("+o+") a; };")
		add("overflow", "choice C(int64 k) on k { case "+o+": uint8 a; };")
	}
	for _, o := range []string{"1.0 / 0.0", "0.0 / 0.0", "1e308 * 10.0", "1e999", "-1e308 - 1e308", "1 / 0.0", "1e39f", "1e38f * 10.0f", "3e38f + 3e38f"} {
		add("overflow", "const float64 X = "+o+";")
		add("overflow", "const float32 X = "+o+";")
		add("overflow", "const bool X = "+o+" > 0.0;")
		add("overflow", "struct S { float32 a = "+o+"; };")
		add("overflow", "struct S { float64 a = "+o+"; };")
		add("overflow", "struct S { float32 k; uint8 a if k > "+o+"; };")
		add("overflow", "struct S { float32 k; function float32 f() { return k + ("+o+"); } };")
	}
	for _, o := range []string{"1e39", "-1e300", "3.4028236e38", "1e38 * 10", "true ? 1e39 : 1.0", "1e38f * 10.0"} {
		for _, t := range []string{"float32", "float16"} {
			add("overflow", "const "+t+" X = "+o+";")
			add("overflow", "struct S { "+t+" a = "+o+"; };")
			add("overflow", "subtype "+t+" F; struct S { F a = "+o+"; };")
			add("overflow", "struct S { "+t+" k; function "+t+" f() { return "+o+"; } };")
			add("overflow", "struct P("+t+" p) { uint8 x; }; struct S { P("+o+") a; };")
		}
	}
	lines("types", "", `
struct S { uint9 a; };
struct S { Unknown a; };
struct S { Unknown a[]; };
struct S { optional Unknown a; };
struct S { Unknown<uint8> a; };
struct S { Unknown(1) a; };
struct S { unknown.T a; };
struct S { a.T a; };
subtype Unknown X;
subtype X X;
subtype X Y; subtype Y X;
subtype X Y; subtype Y Z; subtype Z X;
union U { Unknown a; };
choice C(uint8 k) on k { case 1: Unknown a; };
choice C(uint8 k) on k { default: Unknown a; };
choice C(Unknown k) on k { case 1: uint8 a; };
struct S(Unknown p) { uint8 a; };
struct S { uint8 a; function Unknown f() { return 1; } };
const Unknown X = 1;
enum Unknown E { A };
bitmask Unknown E { A };
enum string E { A };
enum float32 E { A };
enum bool E { A };
enum bytes E { A };
struct S { uint8 a; }; enum S E { A };
enum uint8 F { A }; enum F E { B };
bitmask int8 E { A };
bitmask string E { A };
bitmask float16 E { A };
bitmask bool E { A };
struct S { uint8 a; }; bitmask S E { A };
const uint8 X = 1; struct S { X a; };
struct S { bit:0 a; };
struct S { bit:65 a; };
struct S { bit:300 a; };
struct S { int:0 a; };
struct S { int:65 a; };
struct S { int:256 a; };
struct S { bit<0> a; };
struct S { bit<65> a; };
struct S { int<0> a; };
struct S { int<-1> a; };
struct S { bit<"a"> a; };
struct S { bit<true> a; };
struct S { bit<1.5> a; };
struct S { bit<unknown> a; };
struct S { string s; bit<s> a; };
struct S { uint8 n[]; bit<n> a; };
struct S { S a; };
struct S { T a; }; struct T { S a; };
struct S { uint8 k; S a if k > 0; };
union S { S a; };
union S { uint8 b; S a; };
choice S(uint8 k) on k { case 1: S(k) a; };
struct S { U u; }; union U { S s; uint8 b; };
`)
	lines("parameters", "struct P(uint8 p) { uint8 v; }; struct N { uint8 v; }; struct P2(uint8 p, string q) { uint8 v; }; choice C(uint8 k) on k { case 1: uint8 a; }; struct O(N n) { uint8 v; }; %s", `
struct S { P a; };
struct S { P() a; };
struct S { P(1, 2) a; };
struct S { N(1) a; };
struct S { P("a") a; };
struct S { P(true) a; };
struct S { P(1.5) a; };
struct S { P(unknown) a; };
struct S { P2(1) a; };
struct S { P2("a", 1) a; };
struct S { P2(1, 1) a; };
struct S { P2(1, "a", 1) a; };
struct S { C c; };
struct S { C("a") c; };
struct S { C(true) c; };
struct S { O(1) o; };
struct S { O("a") o; };
struct S { P(1) p; O(p) o; };
struct S { N n; P(n) p; };
struct S { N n; C(n) p; };
struct S { P a[]; };
struct S { P(1, 2) a[]; };
struct S { N(1) a[]; };
struct S { packed P(1, 2) a[]; };
struct S { uint8(1) a; };
struct S { string(1) a; };
struct S { uint8 k; P(@index) a; };
union U { P a; };
union U { P("a") a; };
choice X(uint8 k) on k { case 1: P a; };
choice X(uint8 k) on k { case 1: P(1, k) a; };
subtype P Q; struct S { Q a; };
subtype P Q; struct S { Q(1, 2) a; };
struct S { uint8 a[]; P(a) p; };
struct S { P(q) p; uint8 q; };
struct S { optional P a; };
enum uint8 E { A }; struct S { E(1) a; };
enum uint8 E { A }; struct S { P(E.A) a; };
`)
	lines("templates", "struct T<A> { A a; }; struct T2<A, B> { A a; B b; }; struct N { uint8 v; }; %s", `
struct S { T a; };
struct S { T<> a; };
struct S { T<uint8, uint8> a; };
struct S { T2<uint8> a; };
struct S { N<uint8> a; };
struct S { uint8<uint8> a; };
struct S { T<Unknown> a; };
struct S { T<T> a; };
struct S { T<T<uint8, uint8>> a; };
struct S { T<N<uint8>> a; };
instantiate T X;
instantiate T<uint8, uint8> X;
instantiate N<uint8> X;
instantiate Unknown<uint8> X;
instantiate T<Unknown> X;
subtype T X; struct S { X x; };
subtype T<uint8, uint8> X; struct S { X x; };
struct U<A> { A a; uint8 v = a.v; }; struct S { U<uint8> u; };
struct U<A> { A a; uint8 v[a.n]; }; struct S { U<N> u; };
struct U<A> { A a; B b; }; struct S { U<N> u; };
struct U<A> { A a; uint8 v[a]; }; struct S { U<string> u; };
struct U<A> { A a; uint8 v[a]; }; struct S { U<N> u; };
struct U<A> { A(1) a; }; struct S { U<N> u; };
struct U<A> { A<uint8> a; }; struct S { U<N> u; };
struct U<A> { A a; U<T<A>> u[]; }; struct S { U<uint8> u; };
enum uint8 E<A> { B };
`)
	lines("fields", "struct S { %s };", `
uint8 a[b];
uint8 a["x"];
uint8 a[true];
uint8 a[1.5];
uint8 a[-1];
string s; uint8 a[s];
bool s; uint8 a[s];
float32 s; uint8 a[s];
uint8 s[]; uint8 a[s];
uint8 a[b]; uint8 b;
uint8 a[a];
uint8 a if b > 0;
uint8 a if b > 0; uint8 b;
uint8 a if a > 0;
uint8 b; uint8 a if b;
uint8 b; uint8 a if b + 1;
string b; uint8 a if b;
uint8 a if 1;
uint8 a if "x";
uint8 a = "x";
uint8 a = true;
uint8 a = 1.5;
uint8 a = 256;
uint8 a = -1;
int8 a = 128;
bit:3 a = 8;
string a = 1;
bool a = 1;
float32 a = "x";
uint8 a = unknown;
bytes a = 1;
extern a = 1;
uint8 a[] = 1;
S2 a = 1;
uint8 a : 1;
uint8 a : "x";
uint8 a : unknown > 0;
uint8 a : a + 1;
align(0): uint8 a;
align(-1): uint8 a;
align(x): uint8 a;
align("x"): uint8 a;
align(1.5): uint8 a;
align(256): uint8 a;
implicit uint8 a[];
uint8 n; uint8 a[n.x];
uint8 n; uint8 a[n()];
uint8 n; uint8 a[n[0]];
uint8 n[]; uint8 a[n.x];
uint8 n[]; uint8 a[n["x"]];
uint8 n[]; uint8 a[n[true]];
uint8 n; uint8 a[lengthof(n)];
string n; uint8 a[lengthof(n)];
uint8 n; uint8 a[valueof(n)];
uint8 n; uint8 a if isset(n, 1);
uint8 n; uint8 a[@index];
uint8 n; uint8 a if @index > 0;
uint8 n; bool b; uint8 a[n + b];
uint8 n; string b; uint8 a[n + b];
uint8 n; string b; uint8 a if n == b;
uint8 n; bool b; uint8 a if n == b;
uint8 n; bool b; uint8 a if n && b;
uint8 n; uint8 a if !n;
bool n; uint8 a[~n];
bool n; uint8 a[-n];
bool n; uint8 a[n ? 1 : "x"];
uint8 n; uint8 a[n ? 1 : 2];
uint8 n; uint8 a[n / 0];
uint8 n; uint8 a[n % 0];
string n; uint8 a if n < 1;
string n; uint8 a if n > 1;
string n; uint8 a if n <= 1;
`)
	lines("members", "struct N { uint8 v; uint8 l[]; function uint8 f() { return 1; } }; enum uint8 E { A, B }; bitmask uint8 M { C, D }; struct S { %s };", `
N n; uint8 a[n];
N n; uint8 a[n.x];
N n; uint8 a[n.l];
N n; uint8 a[n.v.x];
N n; uint8 a[n.v()];
N n; uint8 a[n.f];
N n; uint8 a[n.g()];
N n; uint8 a[n[0].v];
N n[]; uint8 a[n.v];
N n[]; uint8 a[n[0]];
N n[]; uint8 a[n[0].x];
N n; uint8 a if n;
N n; uint8 a if n.v;
N n; uint8 a if n == 1;
N n; uint8 a[n + 1];
N n = 1;
uint8 a[N.v];
uint8 a[N.f()];
E e; uint8 a[e];
E e; uint8 a[e + 1];
E e; uint8 a if e;
E e; uint8 a if e == C;
E e; uint8 a if e == M.C;
E e; uint8 a if e == E.X;
E e; uint8 a if e == E;
E e = 1;
E e = E.X;
E e = M.C;
E e = "A";
E e = E;
uint8 a = E.A;
uint8 a[E.A];
M m; uint8 a[m];
M m; uint8 a if m;
M m; uint8 a if m == M.X;
M m; uint8 a if m == E.A;
M m; uint8 a if isset(m, 1);
M m; uint8 a if isset(m, E.A);
E e; uint8 a if isset(e, E.A);
M m = 1;
M m = E.A;
M m = M;
`)
	lines("expression types", "enum uint8 E { A, B }; enum uint8 F { A, B }; bitmask uint8 M { A, B }; bitmask uint8 N { A, B }; struct X { bool p; E e; F f; M m; N n; uint8 i; string s; float64 d; %s };", `
uint8 a if isset(m, N.A);
uint8 a if isset(M.A, N.A);
uint8 a if isset(m, n);
uint8 a if isset(m);
uint8 a if e == f;
uint8 a if m == n;
uint8 a if e == F.A;
uint8 a if E.A == F.A;
uint8 a if M.A != N.A;
uint8 a if e == m;
uint8 a if (p ? e : f) == e;
uint8 a if (p ? E.A : F.A) == e;
uint8 a if (p ? m : n) == m;
uint8 a if p == i;
uint8 a if s == i;
uint8 a if e == s;
uint8 a if i && p;
uint8 a if p || i;
uint8 a if e && p;
uint8 a if m || p;
uint8 a if s || p;
uint8 a if !i;
uint8 a if !e;
uint8 a if !m;
uint8 a if !s;
uint8 a if s;
uint8 a if d;
uint8 a if p & p;
uint8 a if p ^ p;
uint8 a if -p;
uint8 a if i ? p : p;
uint8 a if s ? p : p;
uint8 a if m ? p : p;
uint8 a if p ? p : i;
uint8 a if p ? i : p;
uint8 a if p ? s : p;
uint8 a if p < p;
uint8 a[s];
uint8 a[p];
uint8 a[d];
uint8 a[m];
uint8 a[s + i];
uint8 a[p + i];
uint8 a[i + e];
uint8 a[i * s];
uint8 a[i - s];
uint8 a[s - s];
uint8 a[-s];
uint8 a[-e];
uint8 a[~p];
uint8 a[~s];
uint8 a[~e];
uint8 a[~d];
uint8 a[i << s];
uint8 a[i << p];
uint8 a[i >> d];
uint8 a[i & e];
uint8 a[i | s];
uint8 a[d | i];
uint8 a[d % i];
uint8 a[lengthof(i)];
uint8 a[lengthof(s)];
uint8 a[lengthof(E)];
uint8 a[valueof(i)];
uint8 a[valueof(s)];
uint8 a[valueof(p)];
uint8 a[valueof(E)];
uint8 a[numbits(s)];
uint8 a[numbits(p)];
uint8 a[numbits(d)];
uint8 a[numbits(e)];
uint8 a[p ? i : s];
uint8 a[p ? e : i];
uint8 a[i[0]];
uint8 a[s[0]];
uint8 a[i.x];
uint8 a[i()];
uint8 a[E.A];
bit<s> a;
bit<p> a;
bit<e> a;
bit<m> a;
bit<d> a;
function uint8 g() { return s; }

function uint8 g() { return p; }

function uint8 g() { return d; }

function uint8 g() { return e; }

function uint8 g() { return m; }

function string g() { return i; }

function string g() { return p ? s : i; }

function string g() { return s + p; }

function string g() { return s * s; }

function bool g() { return i; }

function bool g() { return s; }

function bool g() { return isset(e, E.A); }

function E g() { return f; }

function E g() { return F.A; }

function E g() { return 0; }

function E g() { return M.A; }

function E g() { return p ? e : f; }

function E g() { return p ? e : 0; }

function E g() { return e + 1; }

function M g() { return n; }

function M g() { return m | n; }

function M g() { return m & N.A; }

function M g() { return m ^ e; }

function M g() { return ~n; }

function M g() { return m + m; }

function M g() { return m << 1; }

function M g() { return 1; }

function M g() { return p ? m : n; }

function float64 g() { return s; }

function float64 g() { return p; }

`)
	lines("choices", "enum uint8 E { A, B }; bitmask uint8 M { C, D }; struct N { uint8 v; }; %s", `
choice X(uint8 k) on z { case 1: uint8 a; };
choice X(uint8 k) on k { case z: uint8 a; };
choice X(uint8 k) on k { case "a": uint8 a; };
choice X(uint8 k) on k { case true: uint8 a; };
choice X(uint8 k) on k { case 1.5: uint8 a; };
choice X(uint8 k) on k { case 256: uint8 a; };
choice X(uint8 k) on k { case -1: uint8 a; };
choice X(int8 k) on k { case 128: uint8 a; };
choice X(bit:3 k) on k { case 8: uint8 a; };
choice X(uint8 k) on k { case k: uint8 a; };
choice X(uint8 k) on k { case E.A: uint8 a; };
choice X(bool k) on k { case 1: uint8 a; };
choice X(string k) on k { case "a": uint8 a; };
choice X(float32 k) on k { case 1: uint8 a; };
choice X(N k) on k { case 1: uint8 a; };
choice X(N k) on k.x { case 1: uint8 a; };
choice X(bytes k) on k { case 1: uint8 a; };
choice X(E k) on k { case 1: uint8 a; };
choice X(E k) on k { case Z: uint8 a; };
choice X(E k) on k { case M.C: uint8 a; };
choice X(E k) on k { case C: uint8 a; };
choice X(E k) on k { case E: uint8 a; };
choice X(M k) on k { case 1: uint8 a; };
choice X(M k) on k { case A: uint8 a; };
choice X(uint8 k) on a { case 1: uint8 a; };
choice X(uint8 k) on k + "a" { case 1: uint8 a; };
choice X on k { case 1: uint8 a; };
`)
	lines("items", "", `
enum uint8 E { A = 256 };
enum uint8 E { A = -1 };
enum int8 E { A = 128 };
enum bit:2 E { A = 4 };
enum bit:1 E { A, B, C };
enum uint8 E { A = 255, B };
enum uint8 E { A = "a" };
enum uint8 E { A = true };
enum uint8 E { A = 1.5 };
enum uint8 E { A = X };
enum uint8 E { A = A };
enum uint8 E { A = B, B = A };
enum uint8 E { A = 1 / 0 };
enum varuint16 E { A = 32768 };
enum varint16 E { A = -16384 };
enum varsize E { A = 2147483648 };
bitmask uint8 E { A = 256 };
bitmask uint8 E { A = -1 };
bitmask bit:2 E { A, B, C };
bitmask uint8 E { A = 128, B };
bitmask uint8 E { A = "a" };
bitmask uint8 E { A = true };
bitmask uint8 E { A = 1.5 };
bitmask uint8 E { A = X };
bitmask uint8 E { A = A };
`)
	lines("functions", "enum uint8 E { A, B }; struct N { uint8 v; }; struct S { uint8 a; string s; bool b; E e; N n; uint8 l[]; %s };", `
function uint8 f() { return "a"; }
function uint8 f() { return true; }
function uint8 f() { return 1.5; }
function uint8 f() { return 256; }
function uint8 f() { return -1; }
function uint8 f() { return s; }
function uint8 f() { return b; }
function uint8 f() { return e; }
function uint8 f() { return n; }
function uint8 f() { return l; }
function uint8 f() { return x; }
function uint8 f() { return n.x; }
function uint8 f() { return g(); }
function uint8 f() { return s(); }
function uint8 f() { return E.A; }
function uint8 f() { return E; }
function uint8 f() { return S; }
function string f() { return a; }
function string f() { return 1; }
function bool f() { return a; }
function bool f() { return 1; }
function bool f() { return a + 1; }
function E f() { return a; }
function E f() { return 1; }
function E f() { return E.X; }
function N f() { return a; }
function uint8 f() { return a + b; }
function uint8 f() { return a + s; }
function bool f() { return a && b; }
function bool f() { return a == s; }
function bool f() { return a == b; }
function bool f() { return n == n.v; }
function bool f() { return !a; }
function uint8 f() { return b ? a : s; }
function uint8 f() { return a ? 1 : 2; }
function uint8 f() { return lengthof(a); }
function uint8 f() { return valueof(a); }
function uint8 f() { return numbits(s); }
function uint8 f() { return l[s]; }
function uint8 f() { return a[0]; }
function uint8 f() { return @index; }
`)
	add("imports", "import b.*; struct S { T t; };", "b.zs\npackage b;\nstruct U { uint8 a; };")
	add("imports", "import b.T; struct S { uint8 t; };", "b.zs\npackage b;\nstruct U { uint8 a; };")
	add("imports", "import b.U; struct S { T t; };", "b.zs\npackage b;\nstruct U { uint8 a; }; struct T { uint8 a; };")
	add("imports", "struct S { T t; };", "b.zs\npackage b;\nstruct T { uint8 a; };")
	add("imports", "struct S { b.T t; };", "b.zs\npackage b;\nstruct T { uint8 a; };")
	add("imports", "import b.*; struct S { T t; };", "b.zs\npackage b;\nimport c.*;\nstruct U { uint8 a; };", "c.zs\npackage c;\nstruct T { uint8 a; };")
	add("imports", "import b.*; struct S { b.T t; };", "b.zs\npackage b;\nstruct U { uint8 a; };")
	add("imports", "import b.*; const uint8 X = Y;", "b.zs\npackage b;\nconst uint8 Z = 1;")
	add("imports", "import b.*; const uint8 X = Y;", "b.zs\npackage b;\nimport a.*;\nconst uint8 Y = X;")
	add("imports", "import b.*; struct S { E e = E.C; };", "b.zs\npackage b;\nenum uint8 E { A, B };")
	add("imports", "import b.*; struct S { E e; uint8 x if e == A; };", "b.zs\npackage b;\nenum uint8 F { A, B };")
	add("imports", "import b.*; struct S { T<uint8, uint8> t; };", "b.zs\npackage b;\nstruct T<A> { A a; };")
	add("imports", "import b.*; struct S { T t; };", "b.zs\npackage b;\nstruct T(uint8 p) { uint8 a; };")
	add("imports", "import b.*; struct S { T(1) t; };", "b.zs\npackage b;\nstruct T { uint8 a; };")
	add("imports", "import b.*; struct S { T(\"x\") t; };", "b.zs\npackage b;\nstruct T(uint8 p) { uint8 a; };")
	add("imports", "import a.*; struct S { T t; };")
	add("packages", "struct S { uint8 t; };", "b.zs\npackage a;\nstruct T { uint8 a; };")
	add("packages", "struct S { uint8 t; };", "b.zs\npackage a;\nstruct S { uint8 t; };")
	return out
}
