// Package ex holds expression trees of the schema language with the values
// zserio gives them.
package ex

import (
	"fmt"
	"math/big"
)

type Ty int

const (
	TI Ty = iota
	TB
	TF
	TS
)

// Val is a value; exactly one field counts.
type Val struct {
	T Ty
	I *big.Int
	B bool
	F float64
	S string
}

func I(n int64) Val    { return Val{T: TI, I: big.NewInt(n)} }
func U(n uint64) Val   { return Val{T: TI, I: new(big.Int).SetUint64(n)} }
func B(b bool) Val     { return Val{T: TB, B: b} }
func Fl(f float64) Val { return Val{T: TF, F: f} }
func S(s string) Val   { return Val{T: TS, S: s} }

func (v Val) String() string {
	switch v.T {
	case TI:
		return v.I.String()
	case TB:
		return fmt.Sprint(v.B)
	case TF:
		return fmt.Sprint(v.F)
	}
	return fmt.Sprintf("%q", v.S)
}

// Leaf is a literal, constant, field, call or other atom.
type Leaf struct {
	Text string
	T    Ty
	U64  bool  // may hold values beyond int64
	F64  bool  // a float of 64 bits
	Vals []Val // what to try; one value for constants
	Var  bool  // not a constant
	Key  string
}

type Node struct {
	Op   string
	A    []*Node
	Leaf *Leaf
	T    Ty
}

func L(l *Leaf) *Node { return &Node{Leaf: l, T: l.T} }

var IntOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"}
var CmpOps = []string{"<", "<=", ">", ">=", "==", "!="}
var BoolOps = []string{"&&", "||"}
var UnOps = []string{"-", "~", "+"}

var prec = map[string]int{"?": 1, "||": 2, "&&": 3, "|": 4, "^": 5, "&": 6, "==": 7, "!=": 7, "<": 8, "<=": 8, ">": 8, ">=": 8,
	"<<": 9, ">>": 9, "+": 10, "-": 10, "*": 11, "/": 11, "%": 11}

const unary, primary = 12, 13

func (n *Node) prec() int {
	switch {
	case n.Leaf != nil:
		if c := n.Leaf.Text[0]; c == '-' {
			return unary
		}
		return primary
	case n.Op == "numbits":
		return primary
	case len(n.A) == 1:
		return unary
	}
	return prec[n.Op]
}

// Mk builds a node and its type; nil when the operands do not fit.
func Mk(op string, a ...*Node) *Node {
	n := &Node{Op: op, A: a}
	num := func(x *Node) bool { return x.T == TI || x.T == TF }
	switch {
	case op == "numbits":
		if a[0].T != TI {
			return nil
		}
		n.T = TI
	case op == "?":
		if a[0].T != TB || a[1].T != a[2].T || a[1].T == TS {
			return nil
		}
		n.T = a[1].T
	case len(a) == 1:
		switch op {
		case "!":
			if a[0].T != TB {
				return nil
			}
		case "~":
			if a[0].T != TI {
				return nil
			}
		default:
			if !num(a[0]) {
				return nil
			}
		}
		n.T = a[0].T
	case op == "&&" || op == "||":
		if a[0].T != TB || a[1].T != TB {
			return nil
		}
		n.T = TB
	case prec[op] == 7 || prec[op] == 8:
		if a[0].T != a[1].T && !(num(a[0]) && num(a[1])) || prec[op] == 8 && !num(a[0]) {
			return nil
		}
		if a[0].T != a[1].T { // comparing an integer with a float is not defined
			return nil
		}
		if a[0].T == TS {
			return nil
		}
		n.T = TB
	case op == "+" || op == "-" || op == "*" || op == "/":
		if op == "+" && a[0].T == TS && a[1].T == TS {
			n.T = TS
			return n
		}
		if !num(a[0]) || !num(a[1]) {
			return nil
		}
		n.T = TI
		if a[0].T == TF || a[1].T == TF {
			n.T = TF
		}
	default:
		if a[0].T != TI || a[1].T != TI {
			return nil
		}
		n.T = TI
	}
	return n
}

// Text prints with as few parentheses as the grammar allows.
func (n *Node) Text() string { return n.text(false) }

// Full prints with parentheses around every operation.
func (n *Node) Full() string { return n.text(true) }

func (n *Node) text(full bool) string {
	if n.Leaf != nil {
		return n.Leaf.Text
	}
	p := func(x *Node, min int) string {
		s := x.text(full)
		if full && x.Leaf == nil && x.Op != "numbits" || x.prec() < min {
			s = "(" + s + ")"
		}
		return s
	}
	switch {
	case n.Op == "numbits":
		return "numbits(" + n.A[0].text(full) + ")"
	case n.Op == "?":
		return p(n.A[0], 2) + " ? " + p(n.A[1], 1) + " : " + p(n.A[2], 1)
	case len(n.A) == 1:
		s := p(n.A[0], unary)
		if s[0] == '-' || s[0] == '+' || s[0] == '~' || s[0] == '!' {
			s = " " + s
		}
		return n.Op + s
	}
	k := prec[n.Op]
	return p(n.A[0], k) + " " + n.Op + " " + p(n.A[1], k+1)
}

// Leaves collects the distinct leaves.
func (n *Node) Leaves(f func(*Leaf)) {
	if n.Leaf != nil {
		f(n.Leaf)
	}
	for _, a := range n.A {
		a.Leaves(f)
	}
}

// U64 says whether an integer node is computed beyond int64.
func (n *Node) U64() bool {
	if n.T != TI {
		return false
	}
	if n.Leaf != nil {
		return n.Leaf.U64
	}
	switch n.Op {
	case "numbits":
		return false
	case "<<", ">>":
		return n.A[0].U64()
	case "?":
		return n.A[1].U64() || n.A[2].U64()
	}
	for _, a := range n.A {
		if a.U64() {
			return true
		}
	}
	return false
}

// Wide says whether a float node has an operand of 64 bits and so is computed
// with 64 bits.
func (n *Node) Wide() bool {
	if n.T != TF {
		return false
	}
	if n.Leaf != nil {
		return n.Leaf.F64
	}
	for _, a := range n.A {
		if a.Wide() {
			return true
		}
	}
	return false
}

// Eval32 is Eval where operations on floats of less than 64 bits only are
// rounded to 32 bits, which the language leaves open.
func (n *Node) Eval32(env func(*Leaf) Val) (Val, bool) { return n.eval(env, true) }

func (n *Node) Eval(env func(*Leaf) Val) (Val, bool) { return n.eval(env, false) }

func (n *Node) eval(env func(*Leaf) Val, f32 bool) (Val, bool) {
	v, ok := n.eval1(env, f32)
	if f32 && ok && n.T == TF && n.Leaf == nil && !n.Wide() {
		v.F = float64(float32(v.F))
	}
	return v, ok
}

var maxU = new(big.Int).SetUint64(1<<64 - 1)

func fits(x *big.Int, u bool) bool {
	if u {
		return x.Sign() >= 0 && x.Cmp(maxU) <= 0
	}
	return x.IsInt64()
}

// eval1 gives the value, or false where zserio leaves it open (overflow,
// division by zero, shift counts out of range, signed operands mixed with
// values beyond int64).
func (n *Node) eval1(env func(*Leaf) Val, f32 bool) (Val, bool) {
	if n.Leaf != nil {
		return env(n.Leaf), true
	}
	bad := Val{}
	if n.Op == "?" {
		c, ok := n.A[0].eval(env, f32)
		if !ok {
			return bad, false
		}
		k := 2
		if c.B {
			k = 1
		}
		v, ok := n.A[k].eval(env, f32)
		if ok && n.T == TI && !fits(v.I, n.U64()) {
			return bad, false
		}
		return v, ok
	}
	x, ok := n.A[0].eval(env, f32)
	if !ok {
		return bad, false
	}
	if n.Op == "&&" && !x.B || n.Op == "||" && x.B {
		return x, true
	}
	if len(n.A) == 1 {
		switch n.Op {
		case "numbits":
			if x.I.Sign() < 0 {
				return bad, false
			}
			if x.I.Cmp(big.NewInt(1)) <= 0 {
				return I(x.I.Int64()), true
			}
			return I(int64(new(big.Int).Sub(x.I, big.NewInt(1)).BitLen())), true
		case "!":
			return B(!x.B), true
		case "+":
			return x, true
		case "~":
			if n.U64() {
				return bad, false
			}
			return Val{T: TI, I: new(big.Int).Not(x.I)}, true
		}
		if x.T == TF {
			return Fl(-x.F), true
		}
		r := new(big.Int).Neg(x.I)
		if !fits(r, n.U64()) {
			return bad, false
		}
		return Val{T: TI, I: r}, true
	}
	y, ok := n.A[1].eval(env, f32)
	if !ok {
		return bad, false
	}
	if x.T != y.T {
		if x.T == TI {
			x = Fl(toFloat(x.I))
		} else {
			y = Fl(toFloat(y.I))
		}
	}
	switch x.T {
	case TB:
		switch n.Op {
		case "&&", "||":
			return y, true
		case "==":
			return B(x.B == y.B), true
		case "!=":
			return B(x.B != y.B), true
		}
	case TS:
		return S(x.S + y.S), true
	case TF:
		switch n.Op {
		case "+":
			return Fl(x.F + y.F), true
		case "-":
			return Fl(x.F - y.F), true
		case "*":
			return Fl(x.F * y.F), true
		case "/":
			if y.F == 0 {
				return bad, false
			}
			return Fl(x.F / y.F), true
		}
		c := 0
		if x.F < y.F {
			c = -1
		} else if x.F > y.F {
			c = 1
		}
		return B(cmp(n.Op, c)), true
	}
	if prec[n.Op] == 7 || prec[n.Op] == 8 {
		if (n.A[0].U64() || n.A[1].U64()) && (x.I.Sign() < 0 || y.I.Sign() < 0) {
			return bad, false
		}
		return B(cmp(n.Op, x.I.Cmp(y.I))), true
	}
	u := n.U64()
	if u && (x.I.Sign() < 0 || y.I.Sign() < 0) {
		return bad, false
	}
	r := new(big.Int)
	switch n.Op {
	case "+":
		r.Add(x.I, y.I)
	case "-":
		r.Sub(x.I, y.I)
	case "*":
		r.Mul(x.I, y.I)
	case "/", "%":
		if y.I.Sign() == 0 {
			return bad, false
		}
		if n.Op == "/" {
			r.Quo(x.I, y.I)
		} else {
			r.Rem(x.I, y.I)
		}
	case "<<", ">>":
		if y.I.Sign() < 0 || y.I.Cmp(big.NewInt(63)) > 0 {
			return bad, false
		}
		if n.Op == "<<" {
			r.Lsh(x.I, uint(y.I.Int64()))
		} else {
			r.Rsh(x.I, uint(y.I.Int64()))
		}
	case "&":
		r.And(x.I, y.I)
	case "^":
		r.Xor(x.I, y.I)
	case "|":
		r.Or(x.I, y.I)
	}
	if !fits(r, u) {
		return bad, false
	}
	return Val{T: TI, I: r}, true
}

func cmp(op string, c int) bool {
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	case "==":
		return c == 0
	}
	return c != 0
}

// Depth1 applies every operator to every pair of leaves.
func Depth1(ls []*Leaf, f func(*Node)) {
	put := func(n *Node) {
		if n != nil {
			f(n)
		}
	}
	for _, a := range ls {
		put(Mk("numbits", L(a)))
		for _, op := range append(UnOps, "!") {
			put(Mk(op, L(a)))
		}
		for _, b := range ls {
			for _, op := range All {
				put(Mk(op, L(a), L(b)))
			}
		}
	}
}

// All is every binary operator.
var All = append(append(append([]string{}, IntOps...), CmpOps...), BoolOps...)

// Classes has one operator of every precedence level and kind.
var Classes = []string{"*", "%", "+", "-", "<<", "<", "==", "&", "^", "|", "&&", "||"}

// Depth2 combines every two operators in both shapes, over the leaf triples,
// and the unary and ternary operators with every binary one.
func Depth2(triples [][]*Leaf, f func(*Node)) {
	put := func(n *Node) {
		if n != nil {
			f(n)
		}
	}
	mk := func(op string, a ...*Node) *Node {
		for _, x := range a {
			if x == nil {
				return nil
			}
		}
		return Mk(op, a...)
	}
	for _, t := range triples {
		a, b, c := L(t[0]), L(t[1]), L(t[2])
		for _, o1 := range All {
			for _, o2 := range All {
				put(mk(o2, mk(o1, a, b), c))
				put(mk(o2, a, mk(o1, b, c)))
			}
			for _, u := range append(UnOps, "!", "numbits") {
				put(mk(u, mk(o1, a, b)))
				put(mk(o1, mk(u, a), b))
				put(mk(o1, a, mk(u, b)))
			}
			for _, c2 := range CmpOps[:5] {
				k := mk(c2, b, c)
				put(mk(o1, mk("?", k, a, b), c))
				put(mk(o1, c, mk("?", k, a, b)))
				put(mk("?", k, mk(o1, a, b), c))
				put(mk("?", k, c, mk(o1, a, b)))
				put(mk("?", mk(o1, k, mk("==", a, c)), a, b))
			}
		}
		for _, u := range append(UnOps, "!") {
			for _, v := range append(UnOps, "!") {
				put(mk(u, mk(v, a)))
			}
		}
		k, k2 := mk("<", a, b), mk("==", b, c)
		put(mk("?", k, a, mk("?", k2, b, c)))
		put(mk("?", k, mk("?", k2, b, c), a))
		put(mk("?", mk("?", k, k2, mk("!", k2)), a, b))
	}
}

// Depth3 combines three operators in all five shapes.
func Depth3(t []*Leaf, ops []string, f func(*Node)) {
	mk := func(op string, a, b *Node) *Node {
		if a == nil || b == nil {
			return nil
		}
		return Mk(op, a, b)
	}
	a, b, c, d := L(t[0]), L(t[1]), L(t[2]), L(t[3])
	for _, o1 := range ops {
		for _, o2 := range ops {
			for _, o3 := range ops {
				for _, n := range []*Node{
					mk(o3, mk(o2, mk(o1, a, b), c), d),
					mk(o3, mk(o2, a, mk(o1, b, c)), d),
					mk(o3, mk(o1, a, b), mk(o2, c, d)),
					mk(o3, a, mk(o2, mk(o1, b, c), d)),
					mk(o3, a, mk(o2, b, mk(o1, c, d))),
				} {
					if n != nil {
						f(n)
					}
				}
			}
		}
	}
}

func toFloat(i *big.Int) float64 {
	f, _ := new(big.Float).SetInt(i).Float64()
	return f
}
