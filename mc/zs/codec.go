package zs

import (
	"errors"
	"fmt"
	"math"
	mbits "math/bits"
	"strings"
)

// ErrRange: the value cannot be represented in the declared type.
var ErrRange = errors.New("value not representable")

// ErrLen: an array does not have its declared length.
var ErrLen = errors.New("array length differs from declaration")

// ErrTag: a union has no valid selection.
var ErrTag = errors.New("no union field selected")

func fits(signed bool, bits int, i int64) bool {
	if signed {
		if bits >= 64 {
			return true
		}
		return i >= -(int64(1)<<uint(bits-1)) && i <= int64(1)<<uint(bits-1)-1
	}
	if bits >= 64 {
		return true
	}
	return uint64(i) <= uint64(1)<<uint(bits)-1
}

// VarLen returns how many bytes the variable-size form needs.
func VarLen(signed bool, maxB int, i int64) (int, error) {
	if signed {
		if maxB == 9 && i == math.MinInt64 {
			return 1, nil
		}
		if i == math.MinInt64 {
			return 0, ErrRange
		}
		a := uint64(i)
		if i < 0 {
			a = uint64(-i)
		}
		for n := 1; n <= maxB; n++ {
			w := 6 + 7*(n-1)
			if n == maxB {
				w++
			}
			if w >= 64 || a < uint64(1)<<uint(w) {
				return n, nil
			}
		}
		return 0, ErrRange
	}
	u := uint64(i)
	if maxB == 5 && u > math.MaxInt32 {
		return 0, ErrRange
	}
	for n := 1; n <= maxB; n++ {
		w := 7 * n
		if n == maxB {
			w++
		}
		if w >= 64 || u < uint64(1)<<uint(w) {
			return n, nil
		}
	}
	return 0, ErrRange
}

// PutVar appends the variable-size form: [sign] then groups, each but the last
// possible byte carrying a continuation bit.
func PutVar(b *Bits, signed bool, maxB int, i int64) error {
	n, err := VarLen(signed, maxB, i)
	if err != nil {
		return err
	}
	if signed && maxB == 9 && i == math.MinInt64 {
		b.Put(0x80, 8)
		return nil
	}
	a := uint64(i)
	if signed && i < 0 {
		a = uint64(-i)
	}
	// value bits of each byte
	var widths []int
	total := 0
	for k := 0; k < n; k++ {
		w := 8
		if k == 0 && signed {
			w--
		}
		if k < maxB-1 {
			w-- // continuation bit
		}
		widths = append(widths, w)
		total += w
	}
	rest := total
	for k := 0; k < n; k++ {
		if k == 0 && signed {
			if i < 0 {
				b.Put(1, 1)
			} else {
				b.Put(0, 1)
			}
		}
		if k < maxB-1 {
			if k < n-1 {
				b.Put(1, 1)
			} else {
				b.Put(0, 1)
			}
		}
		rest -= widths[k]
		b.Put(a>>uint(rest), widths[k])
	}
	return nil
}

// F16FromF32 rounds to nearest even.
func F16FromF32(f float32) uint16 {
	b := math.Float32bits(f)
	sign := uint16(b>>16) & 0x8000
	exp := int(b>>23) & 0xff
	man := b & 0x7fffff
	if exp == 0xff {
		if man == 0 {
			return sign | 0x7c00
		}
		return sign | 0x7e00 | uint16(man>>13)
	}
	e := exp - 127
	if exp == 0 { // float32 subnormal: far below half precision
		return sign
	}
	m := man | 0x800000 // 24-bit significand, value m * 2^(e-23)
	var shift int
	var base uint32
	if e >= -14 {
		shift = 13
		base = uint32(e+15) << 10
		m &= 0x7fffff
	} else {
		shift = 13 + (-14 - e)
		base = 0
		if shift > 25 {
			return sign
		}
	}
	q := m >> uint(shift)
	r := m & (1<<uint(shift) - 1)
	half := uint32(1) << uint(shift-1)
	if r > half || (r == half && q&1 == 1) {
		q++
	}
	res := base + q
	if res >= 0x7c00 {
		return sign | 0x7c00
	}
	return sign | uint16(res)
}

// F32FromF16 is exact.
func F32FromF16(h uint16) float32 {
	sign := uint32(h&0x8000) << 16
	exp := int(h>>10) & 0x1f
	man := uint32(h & 0x3ff)
	switch {
	case exp == 0x1f:
		return math.Float32frombits(sign | 0x7f800000 | man<<13)
	case exp == 0:
		v := float32(man) * float32(math.Ldexp(1, -24))
		if sign != 0 {
			v = float32(math.Copysign(float64(v), -1))
		}
		return v
	}
	return math.Float32frombits(sign | uint32(exp-15+127)<<23 | man<<13)
}

// EncLeaf appends the plain encoding of a non-compound value.
func EncLeaf(b *Bits, t *Type, v *Val, env *Env) error {
	switch t.K {
	case KFix:
		if !fits(t.Signed, t.Bits, v.I) {
			return ErrRange
		}
		b.Put(uint64(v.I), t.Bits)
	case KDyn:
		n := int(t.Dyn.Eval(env))
		if n < 0 || n > 64 || n == 0 && v.I != 0 {
			return ErrRange
		}
		if n > 0 && !fits(t.Signed, n, v.I) {
			return ErrRange
		}
		b.Put(uint64(v.I), n)
	case KVar:
		return PutVar(b, t.Signed, t.MaxB, v.I)
	case KBool:
		b.Put(uint64(v.I), 1)
	case KF16:
		b.Put(uint64(F16FromF32(math.Float32frombits(uint32(v.I)))), 16)
	case KF32:
		b.Put(uint64(v.I), 32)
	case KF64:
		b.Put(uint64(v.I), 64)
	case KString, KBytes:
		if err := PutVar(b, false, 5, int64(len(v.S))); err != nil {
			return err
		}
		for _, x := range v.S {
			b.Put(uint64(x), 8)
		}
	case KExtern:
		if err := PutVar(b, false, 5, int64(v.N)); err != nil {
			return err
		}
		for i := 0; i < int(v.N); i++ {
			b.Put(uint64(v.S[i/8]>>uint(7-i%8)), 1)
		}
	case KEnum, KBitmask:
		return EncLeaf(b, t.Base, v, env)
	default:
		return fmt.Errorf("not a leaf: %v", t.Text)
	}
	return nil
}

func leaves(t *Type, path string, f func(string)) {
	for _, x := range t.Fields {
		if x.T.Compound() {
			if x.Arr == nil {
				leaves(x.T, path+"."+x.Name, f)
			}
		} else {
			f(path + "." + x.Name)
		}
	}
}

// Params evaluates a field's arguments into the parameter map of its type.
func Params(f *Field, env *Env) map[string]int64 {
	if len(f.Args) == 0 {
		return nil
	}
	m := map[string]int64{}
	for i, a := range f.Args {
		p := f.T.Params[i]
		if p.T.Compound() {
			// a compound argument is a field's name: what it holds is visible by path
			leaves(p.T, "", func(path string) { m[p.Name+path] = env.Get(a.Text + path) })
			elems(env, a.Text, p.Name, m)
			continue
		}
		m[p.Name] = a.Eval(env)
	}
	return m
}

// elems makes the elements of the arrays directly in a compound argument
// visible, as path[index].
func elems(env *Env, arg, param string, m map[string]int64) {
	for k, x := range env.P {
		if strings.HasPrefix(k, arg+".") && strings.HasSuffix(k, "]") {
			m[param+k[len(arg):]] = x
		}
	}
	if env.T == nil || env.V == nil {
		return
	}
	for i, f := range env.T.Fields {
		if f.Name != arg || f.Arr != nil || env.V.E[i] == nil {
			continue
		}
		for j, g := range f.T.Fields {
			if g.Arr == nil || env.V.E[i].E[j] == nil {
				continue
			}
			for k, x := range env.V.E[i].E[j].E {
				m[fmt.Sprintf("%s.%s[%d]", param, g.Name, k)] = x.I
			}
		}
	}
}

// ElemOf is element i of the array member of a compound parameter.
func (e *Env) ElemOf(path string, i int) int64 {
	if x, ok := e.P[fmt.Sprintf("%s[%d]", path, i)]; ok {
		return x
	}
	panic(ErrIndex)
}

// Present tells whether a field takes part in the encoding.
func Present(f *Field, env *Env, fv *Val) bool {
	if f.Cond != nil && f.Cond.Eval(env) == 0 {
		return false
	}
	if f.Opt && fv == nil {
		return false
	}
	return true
}

// ChoiceField returns the index of the field the selector names, or -1.
func ChoiceField(t *Type, sel int64) int {
	for _, c := range t.Cases {
		for _, x := range c.Vals {
			if x == sel {
				return c.Field
			}
		}
	}
	if t.HasDef {
		return t.Def
	}
	return -1
}

// Enc appends the encoding of a value of type t.
func Enc(b *Bits, t *Type, v *Val, params map[string]int64) (err error) {
	defer Catch(&err)
	return enc(b, t, v, params, nil, nil)
}

// ctx is a packing context: for leaves the delta state, for compounds children.
type ctx struct {
	kids []*ctx
	tag  *ctx // union choice tag
	// init phase
	n, firstBits, plainBits, maxBits int
	packed, have                     bool
	prev                             int64
	prevU                            bool
	// write phase
	started bool
}

func newCtx(t *Type) *ctx {
	c := &ctx{}
	if t.Compound() {
		if t.K == KUnion {
			c.tag = &ctx{}
		}
		for _, f := range t.Fields {
			if f.Arr != nil {
				c.kids = append(c.kids, nil)
			} else {
				c.kids = append(c.kids, newCtx(f.T))
			}
		}
	}
	return c
}

func signedOf(t *Type) bool {
	if t.K == KEnum || t.K == KBitmask {
		return t.Base.Signed
	}
	return t.Signed
}

// AbsDelta is |a-b| as an unsigned number.
func AbsDelta(signed bool, a, b int64) uint64 {
	if signed {
		if a >= b {
			return uint64(a) - uint64(b)
		}
		return uint64(b) - uint64(a)
	}
	x, y := uint64(a), uint64(b)
	if x >= y {
		return x - y
	}
	return y - x
}

func (c *ctx) init(t *Type, v *Val, env *Env) error {
	var tmp Bits
	if err := EncLeaf(&tmp, t, v, env); err != nil {
		return err
	}
	c.n++
	c.plainBits += tmp.Len()
	if !c.have {
		c.have = true
		c.firstBits = tmp.Len()
	} else if c.maxBits <= 62 {
		c.packed = true
		n := mbits.Len64(AbsDelta(signedOf(t), v.I, c.prev))
		if n > c.maxBits {
			c.maxBits = n
			if n > 62 {
				c.packed = false
			}
		}
	}
	c.prev = v.I
	return nil
}

func (c *ctx) write(b *Bits, t *Type, v *Val, env *Env) error {
	if !c.started {
		c.started = true
		if c.packed {
			d := 0
			if c.maxBits > 0 {
				d = c.maxBits + 1
			}
			if 1+6+c.firstBits+(c.n-1)*d >= 1+c.plainBits {
				c.packed = false
			}
		}
		if c.packed {
			b.Put(1, 1)
			b.Put(uint64(c.maxBits), 6)
		} else {
			b.Put(0, 1)
		}
		c.prev = v.I
		return EncLeaf(b, t, v, env)
	}
	if !c.packed {
		c.prev = v.I
		return EncLeaf(b, t, v, env)
	}
	if c.maxBits > 0 {
		b.Put(uint64(v.I)-uint64(c.prev), c.maxBits+1)
		c.prev = v.I
	}
	return nil
}

// initCtx is the first pass over a compound element of a packed array.
func initCtx(c *ctx, t *Type, v *Val, params map[string]int64) error {
	switch t.K {
	case KStruct:
		env := &Env{P: params, T: t, V: v}
		for i, f := range t.Fields {
			if err := initField(c, i, f, env, v); err != nil {
				return err
			}
		}
	case KChoice:
		env := &Env{P: params, T: t, V: v}
		if i := ChoiceField(t, t.Sel.Eval(env)); i >= 0 {
			return initField(c, i, t.Fields[i], env, v)
		}
	case KUnion:
		if v.Tag < 0 || v.Tag >= len(t.Fields) {
			return ErrTag
		}
		env := &Env{P: params, T: t, V: v}
		if err := c.tag.init(Var("varsize"), Int(int64(v.Tag)), env); err != nil {
			return err
		}
		return initField(c, v.Tag, t.Fields[v.Tag], env, v)
	}
	return nil
}

func initField(c *ctx, i int, f *Field, env *Env, v *Val) error {
	if f.Arr != nil || !Present(f, env, v.E[i]) {
		return nil
	}
	if f.T.Compound() {
		return initCtx(c.kids[i], f.T, v.E[i], Params(f, env))
	}
	if f.T.Packable() {
		return c.kids[i].init(f.T, v.E[i], env)
	}
	return nil
}

// enc encodes t; with c != nil it is inside a packed array element.
func enc(b *Bits, t *Type, v *Val, params map[string]int64, c *ctx, outer *Env) error {
	switch t.K {
	case KStruct:
		env := &Env{P: params, T: t, V: v}
		for i, f := range t.Fields {
			if err := encField(b, f, i, env, v, c); err != nil {
				return err
			}
		}
		return nil
	case KChoice:
		env := &Env{P: params, T: t, V: v}
		if i := ChoiceField(t, t.Sel.Eval(env)); i >= 0 {
			return encField(b, t.Fields[i], i, env, v, c)
		}
		return nil
	case KUnion:
		if v.Tag < 0 || v.Tag >= len(t.Fields) {
			return ErrTag
		}
		env := &Env{P: params, T: t, V: v}
		if c != nil {
			if err := c.tag.write(b, Var("varsize"), Int(int64(v.Tag)), env); err != nil {
				return err
			}
		} else if err := PutVar(b, false, 5, int64(v.Tag)); err != nil {
			return err
		}
		return encField(b, t.Fields[v.Tag], v.Tag, env, v, c)
	}
	if c != nil && (t.Packable() || t.K == KBool) {
		return c.write(b, t, v, outer)
	}
	return EncLeaf(b, t, v, outer)
}

func encField(b *Bits, f *Field, i int, env *Env, v *Val, c *ctx) error {
	if f.Cond != nil && f.Cond.Eval(env) == 0 {
		return nil
	}
	fv := v.E[i]
	if f.Opt {
		if fv == nil {
			b.Put(0, 1)
			return nil
		}
		b.Put(1, 1)
	}
	if f.Align > 0 {
		b.Align(f.Align)
	}
	if f.Arr == nil {
		var kid *ctx
		if c != nil && f.T.K != KBool {
			kid = c.kids[i]
		}
		return enc(b, f.T, fv, Params(f, env), kid, env)
	}
	return encArray(b, f, fv, env, f.Arr.Packed || c != nil)
}

func encArray(b *Bits, f *Field, a *Val, env *Env, packed bool) error {
	n := len(a.E)
	if f.Arr.Len != nil {
		if int64(n) != f.Arr.Len.Eval(env) {
			return ErrLen
		}
	} else if err := PutVar(b, false, 5, int64(n)); err != nil {
		return err
	}
	at := func(i int) *Env { e := *env; e.Idx = i; return &e }
	packed = packed && n > 0 && (f.T.Packable() || f.T.Compound() || f.T.K == KBool)
	var c *ctx
	if packed {
		c = newCtx(f.T)
		for i, x := range a.E {
			var err error
			if f.T.Compound() {
				err = initCtx(c, f.T, x, Params(f, at(i)))
			} else {
				err = c.init(f.T, x, at(i))
			}
			if err != nil {
				return err
			}
		}
	}
	for i, x := range a.E {
		if err := enc(b, f.T, x, Params(f, at(i)), c, at(i)); err != nil {
			return err
		}
	}
	return nil
}

// EncElems encodes an array of leaves, each at a multiple of align bits.
func EncElems(b *Bits, t *Type, elems []*Val, auto, packed bool, align int) ([]int, error) {
	env := &Env{}
	if auto {
		if err := PutVar(b, false, 5, int64(len(elems))); err != nil {
			return nil, err
		}
	}
	var c *ctx
	if packed && (t.Packable() || t.K == KBool) {
		c = newCtx(t)
		for _, x := range elems {
			if err := c.init(t, x, env); err != nil {
				return nil, err
			}
		}
	}
	var at []int
	for _, x := range elems {
		b.Align(align)
		at = append(at, b.Len())
		if err := enc(b, t, x, nil, c, env); err != nil {
			return nil, err
		}
	}
	return at, nil
}
