package zs

import (
	"errors"
	"math"
)

// ErrEOF: the input ends before the value does.
var ErrEOF = errors.New("input too short")

// ErrInvalid: the bits encode no value of the type.
var ErrInvalid = errors.New("invalid encoding")

// ErrHuge: the value has more elements than the model decodes.
var ErrHuge = errors.New("too many elements for the model")

// ErrUnspecified: an argument does not fit into the type of its parameter, for
// which the language defines no outcome.
var ErrUnspecified = errors.New("argument out of range")

// Rd is a model reader over a bit string.
type Rd struct {
	B     []byte // one byte per bit
	Pos   int
	elems int
}

const MaxElems = 1 << 12

func (r *Rd) Bits(n int) (uint64, error) {
	if r.Pos+n > len(r.B) {
		r.Pos = len(r.B)
		return 0, ErrEOF
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(r.B[r.Pos+i])
	}
	r.Pos += n
	return v, nil
}

func (r *Rd) Align(n int) error {
	if n > 0 && r.Pos%n != 0 {
		r.Pos += n - r.Pos%n
		if r.Pos > len(r.B) {
			return ErrEOF
		}
	}
	return nil
}

// Var reads a variable-size integer.
func (r *Rd) Var(signed bool, maxB int) (int64, error) {
	var a uint64
	neg := false
	n := 0
	for n < maxB {
		x, err := r.Bits(8)
		if err != nil {
			return 0, err
		}
		w := uint(8)
		if n == 0 && signed {
			neg = x&0x80 != 0
			w--
			x &= 0x7f
		}
		more := false
		if n < maxB-1 {
			w--
			more = x>>w&1 == 1
			x &= 1<<w - 1
		}
		a = a<<w | x
		n++
		if !more {
			break
		}
	}
	if signed && maxB == 9 && n == 1 && neg && a == 0 {
		return math.MinInt64, nil
	}
	if maxB == 5 && a > math.MaxInt32 {
		return 0, ErrInvalid
	}
	if neg {
		return -int64(a), nil
	}
	return int64(a), nil
}

func sext(v uint64, n int, signed bool) int64 {
	if signed && n > 0 && n < 64 && v>>(uint(n)-1)&1 == 1 {
		v |= ^uint64(0) << uint(n)
	}
	return int64(v)
}

func (r *Rd) bytes(n int) ([]byte, error) {
	if r.Pos+8*n > len(r.B) {
		r.Pos = len(r.B)
		return nil, ErrEOF
	}
	p := make([]byte, n)
	for i := range p {
		x, _ := r.Bits(8)
		p[i] = byte(x)
	}
	return p, nil
}

func (r *Rd) leaf(t *Type, env *Env) (*Val, error) {
	switch t.K {
	case KFix, KDyn:
		n := t.Bits
		if t.K == KDyn {
			w := t.Dyn.Eval(env)
			if w < 0 || w > 64 {
				return nil, ErrInvalid
			}
			n = int(w)
		}
		x, err := r.Bits(n)
		return Int(sext(x, n, t.Signed)), err
	case KVar:
		x, err := r.Var(t.Signed, t.MaxB)
		return Int(x), err
	case KBool:
		x, err := r.Bits(1)
		return Int(int64(x)), err
	case KF16:
		x, err := r.Bits(16)
		return &Val{I: int64(math.Float32bits(F32FromF16(uint16(x))))}, err
	case KF32:
		x, err := r.Bits(32)
		return Int(int64(x)), err
	case KF64:
		x, err := r.Bits(64)
		return Int(int64(x)), err
	case KString, KBytes:
		n, err := r.Var(false, 5)
		if err != nil {
			return nil, err
		}
		p, err := r.bytes(int(n))
		return &Val{S: p}, err
	case KExtern:
		n, err := r.Var(false, 5)
		if err != nil {
			return nil, err
		}
		p, err := r.bytes(int(n) / 8)
		if err != nil {
			return nil, err
		}
		if k := int(n) % 8; k > 0 {
			x, err := r.Bits(k)
			if err != nil {
				return nil, err
			}
			p = append(p, byte(x<<uint(8-k)))
		}
		return &Val{S: p, N: uint64(n)}, nil
	case KEnum, KBitmask:
		return r.leaf(t.Base, env)
	}
	panic("not a leaf")
}

// dctx is the decoding side of a packing context.
type dctx struct {
	kids            []*dctx
	tag             *dctx
	started, packed bool
	bits            int
	prev            int64
}

func newDctx(t *Type) *dctx {
	c := &dctx{}
	if t.Compound() {
		if t.K == KUnion {
			c.tag = &dctx{}
		}
		for _, f := range t.Fields {
			if f.Arr != nil {
				c.kids = append(c.kids, nil)
			} else {
				c.kids = append(c.kids, newDctx(f.T))
			}
		}
	}
	return c
}

func (c *dctx) read(r *Rd, t *Type, env *Env) (*Val, error) {
	if !c.started {
		c.started = true
		d, err := r.Bits(1)
		if err != nil {
			return nil, err
		}
		if d == 1 {
			c.packed = true
			m, err := r.Bits(6)
			if err != nil {
				return nil, err
			}
			c.bits = int(m)
		}
		v, err := r.leaf(t, env)
		if err == nil {
			c.prev = v.I
		}
		return v, err
	}
	if !c.packed {
		return r.leaf(t, env)
	}
	if c.bits > 0 {
		d, err := r.Bits(c.bits + 1)
		if err != nil {
			return nil, err
		}
		c.prev += sext(d, c.bits+1, true)
	}
	var tmp Bits
	if EncLeaf(&tmp, t, Int(c.prev), env) != nil || t.K == KBool && uint64(c.prev) > 1 {
		return nil, ErrInvalid
	}
	return Int(c.prev), nil
}

// Dec decodes one value of t.
func Dec(r *Rd, t *Type, params map[string]int64) (v *Val, err error) {
	defer Catch(&err)
	return dec(r, t, params, nil, nil)
}

func dec(r *Rd, t *Type, params map[string]int64, c *dctx, outer *Env) (*Val, error) {
	if r.elems++; r.elems > MaxElems {
		return nil, ErrHuge
	}
	switch t.K {
	case KStruct:
		v := &Val{E: make([]*Val, len(t.Fields)), Tag: -1}
		env := &Env{P: params, T: t, V: v}
		for i, f := range t.Fields {
			if err := decField(r, f, i, env, v, c); err != nil {
				return nil, err
			}
		}
		return v, nil
	case KChoice:
		v := &Val{E: make([]*Val, len(t.Fields)), Tag: -1}
		env := &Env{P: params, T: t, V: v}
		if i := ChoiceField(t, t.Sel.Eval(env)); i >= 0 {
			v.Tag = i
			if err := decField(r, t.Fields[i], i, env, v, c); err != nil {
				return nil, err
			}
		}
		return v, nil
	case KUnion:
		v := &Val{E: make([]*Val, len(t.Fields)), Tag: -1}
		env := &Env{P: params, T: t, V: v}
		var tag int64
		var err error
		if c != nil {
			var tv *Val
			if tv, err = c.tag.read(r, Var("varsize"), env); err == nil {
				tag = tv.I
			}
		} else {
			tag, err = r.Var(false, 5)
		}
		if err != nil {
			return nil, err
		}
		if tag < 0 || tag >= int64(len(t.Fields)) {
			return nil, ErrInvalid
		}
		v.Tag = int(tag)
		return v, decField(r, t.Fields[tag], int(tag), env, v, c)
	}
	if c != nil && t.Packable() {
		return c.read(r, t, outer)
	}
	if c != nil && t.K == KBool {
		return c.read(r, t, outer)
	}
	return r.leaf(t, outer)
}

func decField(r *Rd, f *Field, i int, env *Env, v *Val, c *dctx) error {
	if f.Cond != nil && f.Cond.Eval(env) == 0 {
		return nil
	}
	if f.Opt {
		x, err := r.Bits(1)
		if err != nil {
			return err
		}
		if x == 0 {
			return nil
		}
	}
	if err := r.Align(f.Align); err != nil {
		return err
	}
	if f.Arr == nil {
		var kid *dctx
		if c != nil && f.T.K != KBool {
			kid = c.kids[i]
		}
		ps := Params(f, env)
		if !argsFit(f, ps) {
			return ErrUnspecified
		}
		x, err := dec(r, f.T, ps, kid, env)
		v.E[i] = x
		return err
	}
	var n int64
	var err error
	if f.Arr.Len != nil {
		if n = f.Arr.Len.Eval(env); n < 0 {
			return ErrInvalid
		}
	} else if n, err = r.Var(false, 5); err != nil {
		return err
	}
	packed := (f.Arr.Packed || c != nil) && n > 0 && (f.T.Packable() || f.T.Compound() || f.T.K == KBool)
	var dc *dctx
	if packed {
		dc = newDctx(f.T)
	}
	a := &Val{}
	v.E[i] = a
	for k := int64(0); k < n; k++ {
		e := *env
		e.Idx = int(k)
		ps := Params(f, &e)
		if !argsFit(f, ps) {
			return ErrUnspecified
		}
		x, err := dec(r, f.T, ps, dc, &e)
		if err != nil {
			return err
		}
		a.E = append(a.E, x)
	}
	return nil
}

func argsFit(f *Field, ps map[string]int64) bool {
	if len(f.Args) == 0 {
		return true
	}
	for _, p := range f.T.Params {
		t := p.T
		if t.K == KEnum || t.K == KBitmask {
			t = t.Base
		}
		if t.K == KFix && !fits(t.Signed, t.Bits, ps[p.Name]) {
			return false
		}
	}
	return true
}

// Same compares two values of type t; NaNs are equal to each other.
func Same(t *Type, a, b *Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	switch t.K {
	case KStruct, KChoice, KUnion:
		if t.K == KUnion && a.Tag != b.Tag {
			return false
		}
		for i, f := range t.Fields {
			x, y := a.E[i], b.E[i]
			if x == nil || y == nil {
				if x != y {
					return false
				}
				continue
			}
			if f.Arr == nil {
				if !Same(f.T, x, y) {
					return false
				}
				continue
			}
			if len(x.E) != len(y.E) {
				return false
			}
			for k := range x.E {
				if !Same(f.T, x.E[k], y.E[k]) {
					return false
				}
			}
		}
		return true
	case KString, KBytes:
		return string(a.S) == string(b.S)
	case KExtern:
		return a.N == b.N && string(a.S) == string(b.S)
	case KF16, KF32:
		x, y := math.Float32frombits(uint32(a.I)), math.Float32frombits(uint32(b.I))
		return a.I == b.I || x != x && y != y
	case KF64:
		x, y := math.Float64frombits(uint64(a.I)), math.Float64frombits(uint64(b.I))
		return a.I == b.I || x != x && y != y
	}
	return a.I == b.I
}
