package zs

import (
	"fmt"
	"math"
)

// Chooser enumerates every sequence of answers to Choose by depth-first search:
// each run replays a prefix and answers 0 afterwards. Bound limits how many
// non-zero answers one run may contain (deviations); negative means no limit.
type Chooser struct {
	Bound  int
	prefix []int
	pos    int
	arity  []int
	used   int
	Points int // choice points met over all runs
	Runs   int
}

func NewChooser(bound int) *Chooser { return &Chooser{Bound: bound} }

// Start begins the next run.
func (c *Chooser) Start() {
	c.pos, c.used = 0, 0
	c.arity = c.arity[:0]
	c.Runs++
}

// Choose returns 0..n-1.
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic("Choose(0)")
	}
	if n == 1 {
		return 0
	}
	c.Points++
	if c.pos < len(c.prefix) {
		x := c.prefix[c.pos]
		if x >= n {
			panic(fmt.Sprintf("choice replay diverged: %d of %d at %d", x, n, c.pos))
		}
		c.pos++
		c.arity = append(c.arity, n)
		if x > 0 {
			c.used++
		}
		return x
	}
	c.prefix = append(c.prefix, 0)
	c.pos++
	c.arity = append(c.arity, n)
	return 0
}

// Next moves to the next unexplored sequence; false when done.
func (c *Chooser) Next() bool {
	if len(c.prefix) != c.pos {
		panic("choice replay diverged: run shorter than its prefix")
	}
	for i := len(c.prefix) - 1; i >= 0; i-- {
		dev := 0
		for j := 0; j < i; j++ {
			if c.prefix[j] > 0 {
				dev++
			}
		}
		if c.prefix[i]+1 < c.arity[i] && (c.Bound < 0 || dev+1 <= c.Bound) {
			c.prefix = c.prefix[:i+1]
			c.prefix[i]++
			return true
		}
		c.prefix = c.prefix[:i]
	}
	return false
}

func (c *Chooser) Trace() []int { return append([]int{}, c.prefix[:c.pos]...) }

// Lim bounds value generation.
type Lim struct {
	MaxLen   int   // auto arrays: lengths 0..MaxLen
	Small    bool  // leaves: at most two values
	LenFirst int   // default length of auto arrays
	Lens     []int // lengths of auto arrays, when given
	Pat      bool  // arrays hold two chosen elements in a chosen pattern
	Pats     int   // how many of the patterns to use (0: all)
}

func clip(v []*Val, n int) []*Val {
	if len(v) > n {
		return v[:n]
	}
	return v
}

func f32(f float32) *Val { return &Val{I: int64(math.Float32bits(f))} }
func f64(f float64) *Val { return &Val{I: int64(math.Float64bits(f))} }

// Dom is the enumeration domain of a leaf, most ordinary value first.
func Dom(t *Type, env *Env) []*Val {
	if t.Values != nil {
		return t.Values
	}
	switch t.K {
	case KFix:
		return intDom(t.Signed, t.Bits)
	case KDyn:
		return intDom(t.Signed, int(t.Dyn.Eval(env)))
	case KVar:
		var r []*Val
		base := []int64{5, 0, 63, 64, 127, 128}
		if t.Signed {
			base = append(base, -1, -63, -64)
			w := map[int]int64{2: 1<<14 - 1, 4: 1<<28 - 1, 8: 1<<56 - 1 + 1<<56, 9: math.MaxInt64}[t.MaxB]
			if t.MaxB == 8 {
				w = 1<<56 - 1
			}
			base = append(base, w, -w)
			if t.MaxB == 9 {
				base = append(base, math.MinInt64)
			}
		} else {
			w := map[int]int64{2: 1<<15 - 1, 4: 1<<29 - 1, 8: 1<<57 - 1, 9: -1, 5: math.MaxInt32}[t.MaxB]
			base = append(base, w)
		}
		for _, x := range base {
			r = append(r, Int(x))
		}
		return r
	case KBool:
		return []*Val{Int(1), Int(0)}
	case KF16:
		return []*Val{f32(1.5), f32(0), f32(-2), f32(65504), f32(float32(math.Inf(1))), f32(float32(math.Copysign(0, -1)))}
	case KF32:
		return []*Val{f32(1.5), f32(0), f32(-3.25), f32(math.MaxFloat32), f32(math.SmallestNonzeroFloat32), f32(float32(math.Inf(-1)))}
	case KF64:
		return []*Val{f64(2.5), f64(0), f64(-1e300), f64(math.MaxFloat64), f64(math.SmallestNonzeroFloat64), f64(math.Inf(1))}
	case KString:
		return []*Val{Str("ab"), Str(""), Str("\x00\xff"), Str("0123456789")}
	case KBytes:
		return []*Val{Str("\x01\xfe"), Str(""), Str("abc")}
	case KExtern:
		return []*Val{Ext(11, 0xab, 0xc0), Ext(0), Ext(8, 0x5a), Ext(3, 0xa0), Ext(16, 1, 2)}
	case KEnum:
		var r []*Val
		for _, it := range t.Items {
			r = append(r, Int(it.Val))
		}
		return r
	case KBitmask:
		var all int64
		var r []*Val
		for _, it := range t.Items {
			r = append(r, Int(it.Val))
			all |= it.Val
		}
		return append(r, Int(all), Int(0))
	}
	panic("no domain for " + t.Text)
}

func intDom(signed bool, n int) []*Val {
	var c []int64
	if signed {
		max := int64(1)<<uint(n-1) - 1
		min := -max - 1
		c = []int64{max / 2, 0, -1, min, max, 1}
	} else {
		max := int64(-1)
		half := int64(math.MinInt64)
		if n < 64 {
			max = int64(1)<<uint(n) - 1
			half = int64(1) << uint(n-1)
		}
		c = []int64{half, 0, max, 1}
	}
	var r []*Val
	seen := map[int64]bool{}
	for _, x := range c {
		if !seen[x] && fits(signed, n, x) {
			seen[x] = true
			r = append(r, Int(x))
		}
	}
	return r
}

// Gen builds one value of t from the chooser's answers.
func Gen(ch *Chooser, t *Type, params map[string]int64, lim Lim) *Val {
	return gen(ch, t, params, lim, nil)
}

func gen(ch *Chooser, t *Type, params map[string]int64, lim Lim, env *Env) *Val {
	switch t.K {
	case KStruct:
		v := &Val{E: make([]*Val, len(t.Fields)), Tag: -1}
		e := &Env{P: params, T: t, V: v}
		for i, f := range t.Fields {
			v.E[i] = genField(ch, f, e, lim)
		}
		return v
	case KChoice:
		v := &Val{E: make([]*Val, len(t.Fields)), Tag: -1}
		e := &Env{P: params, T: t, V: v}
		if i := ChoiceField(t, t.Sel.Eval(e)); i >= 0 {
			v.E[i] = genField(ch, t.Fields[i], e, lim)
			v.Tag = i
		}
		return v
	case KUnion:
		v := &Val{E: make([]*Val, len(t.Fields)), Tag: -1}
		e := &Env{P: params, T: t, V: v}
		v.Tag = ch.Choose(len(t.Fields))
		v.E[v.Tag] = genField(ch, t.Fields[v.Tag], e, lim)
		return v
	}
	d := Dom(t, env)
	if lim.Small {
		d = clip(d, 2)
	}
	return d[ch.Choose(len(d))]
}

func genField(ch *Chooser, f *Field, e *Env, lim Lim) *Val {
	if f.Cond != nil && f.Cond.Eval(e) == 0 {
		return nil
	}
	if f.Opt && ch.Choose(2) == 1 {
		return nil
	}
	if f.Arr == nil {
		return gen(ch, f.T, Params(f, e), lim, e)
	}
	var n int
	if f.Arr.Len != nil {
		n = int(f.Arr.Len.Eval(e))
	} else if lim.Lens != nil {
		n = lim.Lens[ch.Choose(len(lim.Lens))]
	} else {
		n = (lim.LenFirst + ch.Choose(lim.MaxLen+1)) % (lim.MaxLen + 1)
	}
	v := &Val{E: make([]*Val, n)}
	if lim.Pat && len(f.Args) == 0 && n > 2 {
		in := lim
		in.Pat = false
		pats := lim.Pats
		if pats == 0 {
			pats = 5
		}
		a, b := gen(ch, f.T, nil, in, e), gen(ch, f.T, nil, in, e)
		p := ch.Choose(pats)
		for i := range v.E {
			v.E[i] = a
			if (p == 0 && i%2 == 1) || (p == 1 && i == n-1) || (p == 2 && i > 0) || (p == 3 && i == n/2) || (p == 4 && i%3 == 2) {
				v.E[i] = b
			}
		}
		return v
	}
	for i := range v.E {
		ei := *e
		ei.Idx = i
		v.E[i] = gen(ch, f.T, Params(f, &ei), lim, &ei)
	}
	return v
}

// Show renders a value for reports.
func Show(t *Type, v *Val) string {
	if v == nil {
		return "-"
	}
	switch t.K {
	case KStruct, KChoice, KUnion:
		s := ""
		if t.K == KUnion {
			s = fmt.Sprintf("#%d ", v.Tag)
		}
		for i, f := range t.Fields {
			if v.E[i] == nil && t.K != KStruct {
				continue
			}
			s += f.Name + "="
			if v.E[i] == nil {
				s += "-"
			} else if f.Arr != nil {
				s += "["
				for k, x := range v.E[i].E {
					if k > 0 {
						s += ","
					}
					if k == 32 && len(v.E[i].E) > 36 {
						s += fmt.Sprintf("...(%d elements)", len(v.E[i].E))
						break
					}
					s += Show(f.T, x)
				}
				s += "]"
			} else {
				s += Show(f.T, v.E[i])
			}
			s += " "
		}
		return "{" + s + "}"
	case KString:
		return fmt.Sprintf("%q", v.S)
	case KBytes:
		return fmt.Sprintf("%x", v.S)
	case KExtern:
		return fmt.Sprintf("%x/%d", v.S, v.N)
	case KF16, KF32:
		return fmt.Sprint(math.Float32frombits(uint32(v.I)))
	case KF64:
		return fmt.Sprint(math.Float64frombits(uint64(v.I)))
	}
	if signedOf(t) {
		return fmt.Sprint(v.I)
	}
	return fmt.Sprint(uint64(v.I))
}
