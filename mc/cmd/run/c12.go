package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"mc/bind"
	"mc/fam"
	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
)

// C12: every fault point of the writer, and every invalid value at every place
// of every object, makes marshalling fail.
func init() {
	checks["C12"] = func(rp *rep.R) {
		max := 14
		if rp.Thorough() {
			max = 300
		}
		set := fam.Get("C12", rp.Thorough())
		parallel(rp, set.Roots, func(r *fam.Root) {
			rp.Add("types", 1)
			forValues(r, max, func(v *zs.Val, p map[string]int64) {
				writeFaults(rp, r, v, p)
				v = clone(v) // values are shared between types
				mutate(r.T, v, func(what string, must bool) { invalidOne(rp, r, v, p, what, must) })
			})
		})
	}
}

func writeFaults(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64) {
	want, merr := model(r, v, p, 0)
	if merr != nil {
		return
	}
	o := build(r, v, p)
	rp.Count(1, 0, 0)
	fail := func(format string, a ...any) { rp.Fail(r.Desc, explain(r, v, p, 0, format, a...)) }
	// every operation on the zserio writer
	total := 0
	for k := -1; k < total || k < 0; k++ {
		var buf bytes.Buffer
		bw := zstream.NewWriter(&buf)
		w := &opWriter{w: bw, fail: k}
		err, pan := guard(func() error { return o.MarshalZserio(w) })
		rp.Count(0, 1, 1)
		if pan != "" {
			fail("panics when writer operation %d fails: %s", k, pan)
			return
		}
		if k < 0 {
			if err != nil {
				fail("encoding fails: %v", err)
				return
			}
			total = w.n
			if bw.Close(); !bytes.Equal(buf.Bytes(), want.Bytes()) {
				fail("success reported, but not everything was written\n got %s\nwant %s", zs.FromBytes(buf.Bytes()), want)
				return
			}
			continue
		}
		if err == nil {
			fail("writer operation %d of %d fails, yet marshalling reports success", k, total)
			return
		}
	}
	rp.Distinct(fmt.Sprint(r.Name, total))
	// every byte of the underlying writer
	n := len(want.Bytes())
	for k := 0; k < n; k++ {
		for _, once := range []bool{false, true} {
			lw := &limWriter{max: k, once: once}
			bw := zstream.NewWriter(lw)
			err, pan := guard(func() error {
				if err := o.MarshalZserio(bw); err != nil {
					return err
				}
				return bw.Close()
			})
			rp.Count(0, 1, 1)
			if pan != "" {
				fail("panics when byte %d cannot be written: %s", k, pan)
				return
			}
			if err == nil {
				fail("byte %d of %d cannot be written, yet marshalling reports success", k, n)
				return
			}
		}
	}
}

// mutate puts every invalid or boundary value at every place of v in turn, and
// calls f with each; v is restored.
func mutate(t *zs.Type, v *zs.Val, f func(what string, must bool)) { mut(t, v, t.Name, nil, f) }

func mut(t *zs.Type, v *zs.Val, path string, fld *zs.Field, f func(string, bool)) {
	switch t.K {
	case zs.KStruct, zs.KChoice, zs.KUnion:
		if t.K == zs.KUnion {
			old := v.Tag
			for _, x := range []int{-1, len(t.Fields), 1 << 20} {
				v.Tag = x
				f(fmt.Sprintf("%s selection %d", path, x), true)
			}
			v.Tag = old
		}
		for i, x := range t.Fields {
			if v.E[i] == nil {
				continue
			}
			if x.Arr == nil {
				mut(x.T, v.E[i], path+"."+x.Name, x, f)
				continue
			}
			a := v.E[i]
			old := a.E
			if x.Arr.Len != nil {
				if len(old) > 0 {
					a.E = old[:len(old)-1]
					f(fmt.Sprintf("%s.%s one element short", path, x.Name), true)
					a.E = append(append([]*zs.Val{}, old...), old[0])
					f(fmt.Sprintf("%s.%s one element more", path, x.Name), true)
					a.E = nil
					f(fmt.Sprintf("%s.%s empty", path, x.Name), true)
				}
				a.E = old
			}
			for k := range old {
				if k > 3 && k < len(old)-1 {
					continue
				}
				// elements may be shared between positions
				keep := old[k]
				a.E = append([]*zs.Val{}, old...)
				a.E[k] = clone(keep)
				mut(x.T, a.E[k], fmt.Sprintf("%s.%s[%d]", path, x.Name, k), x, f)
				a.E = old
			}
		}
		return
	case zs.KFix, zs.KDyn, zs.KVar, zs.KEnum, zs.KBitmask:
		old := v.I
		seen := map[int64]bool{old: true}
		try := func(x int64) {
			if !seen[x] {
				seen[x] = true
				v.I = x
				f(fmt.Sprintf("%s = %d", path, x), false)
			}
		}
		for _, b := range []uint{1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 28, 29, 31, 32, 33, 56, 57, 63} {
			try(1 << b)
			try(-(1 << b) - 1)
			try(-(1 << b))
		}
		try(math.MaxInt64)
		try(-1)
		v.I = old
	case zs.KBytes, zs.KExtern:
		if t.K == zs.KExtern {
			n := v.N
			v.N = uint64(len(v.S))*8 + 1
			f(path+" size beyond the buffer", true)
			v.N = n
		}
	}
}

func clone(v *zs.Val) *zs.Val {
	if v == nil {
		return nil
	}
	c := *v
	c.E = nil
	for _, x := range v.E {
		c.E = append(c.E, clone(x))
	}
	if v.E != nil && c.E == nil {
		c.E = []*zs.Val{}
	}
	return &c
}

func invalidOne(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64, what string, must bool) {
	var want *zs.Bits
	var merr error
	var o zserio.ZserioType
	_, pan := guard(func() error {
		o = build(r, v, p)
		if !must {
			if d := bind.Diff(reflect.ValueOf(o).Elem(), r.T, v, p, ""); d != "" {
				o = nil // the Go type cannot hold it
			}
		}
		return nil
	})
	if pan != "" || o == nil {
		return
	}
	if _, pan := guard(func() error { want, merr = model(r, v, p, 0); return nil }); pan != "" && !must {
		return // the model gives no meaning to it (an absent field that is now needed)
	}
	if must && merr == nil {
		merr = zs.ErrInvalid
	}
	rp.Count(1, 1, 1)
	data, end, err, pan := marshalAt(o, 0)
	key := r.Desc
	if pan != "" {
		rp.Fail(key, explainSafe(r, v, p, "%s: encoding panics: %s", what, pan))
		return
	}
	// zserio.Marshal says the same
	var all []byte
	err2, pan := guard(func() (err error) { all, err = zserio.Marshal(o); return })
	if pan != "" || (err2 == nil) != (err == nil) || err2 == nil && !bytes.Equal(all, data) || err2 != nil && len(all) != 0 {
		rp.Fail(key, explainSafe(r, v, p, "%s: encoding gives %v and %x, zserio.Marshal gives %v and %x %s", what, err, data, err2, all, pan))
		return
	}
	if merr != nil {
		rp.Add("invalid_objects", 1)
		if err == nil {
			rp.Fail(key, explainSafe(r, v, p, "%s: cannot be encoded (%v), yet marshalling reports success", what, merr))
		}
		return
	}
	if err != nil {
		rp.Fail(key, explainSafe(r, v, p, "%s: valid, but encoding fails: %v", what, err))
		return
	}
	if int(end) != want.Len() || !bytes.Equal(data, want.Bytes()) {
		rp.Fail(key, explainSafe(r, v, p, "%s: success reported, but not everything was written\n got %s\nwant %s", what, zs.FromBytes(data), want))
	}
}

func explainSafe(r *fam.Root, v *zs.Val, p map[string]int64, format string, a ...any) (s string) {
	s = fmt.Sprintf(format, a...)
	guard(func() error { s = explain(r, v, p, 0, format, a...); return nil })
	return s
}
