package main

import (
	"bytes"
	"fmt"

	"mc/fam"
	"mc/rep"
	"mc/zs"
)

// C23: LoadDefaultValues on objects holding any value.
func init() {
	checks["C23"] = func(rp *rep.R) {
		set := fam.Get("C23", rp.Thorough())
		parallel(rp, set.Roots, func(r *fam.Root) {
			n, _, _ := forValues(r, 30, func(v *zs.Val, p map[string]int64) { defaultsOne(rp, r, v, p) })
			rp.Count(n, n*3, n)
			rp.Add("types", 1)
			rp.Sample("%s", r.Desc)
		})
	}
}

// overlay gives what loading the defaults makes of v.
func overlay(t *zs.Type, v *zs.Val) *zs.Val {
	if v == nil || !t.Compound() {
		return v
	}
	c := *v
	c.E = append([]*zs.Val{}, v.E...)
	for i, f := range t.Fields {
		if f.Opt || f.Arr != nil || c.E[i] == nil {
			continue
		}
		if f.T.Compound() {
			c.E[i] = overlay(f.T, c.E[i])
		} else if f.InitV != nil {
			c.E[i] = f.InitV
		}
	}
	return &c
}

func defaultsOne(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64) {
	want := overlay(r.T, v)
	o := build(r, v, p)
	l, ok := o.(interface{ LoadDefaultValues() error })
	if !ok {
		rp.Fail(r.Desc, r.Name+" cannot load default values")
		return
	}
	// twice: loading is idempotent
	wb, merr := model(r, want, p, 0)
	for i := 0; i < 2; i++ {
		err, pan := guard(l.LoadDefaultValues)
		if err != nil || pan != "" {
			rp.Fail(r.Desc, explain(r, v, p, 0, "loading default values fails: %v %s", err, pan))
			return
		}
		got, _, err, pan := marshalAt(o, 0) // also passes the parameters on
		if pan != "" || (err == nil) != (merr == nil) || err == nil && !bytes.Equal(got, wb.Bytes()) {
			rp.Fail(r.Desc, explain(r, v, p, 0, "the initialised object encodes as %x, %v %s; must be %v %v", got, err, pan, wb, merr))
			return
		}
		if d := diff(r, o, want, p); d != "" && !absentDefault(r.T, want) {
			rp.Fail(r.Desc, explain(r, v, p, 0, "after loading default values: %s", d))
			return
		}
	}
	rp.Distinct(fmt.Sprintf("%s %v", r.Desc, wb))
}

// absentDefault tells if a conditional field with a default is absent: loading
// the defaults may set it, and nothing shows that.
func absentDefault(t *zs.Type, v *zs.Val) bool {
	for i, f := range t.Fields {
		if f.Cond != nil && f.InitV != nil && v.E[i] == nil {
			return true
		}
	}
	return false
}
