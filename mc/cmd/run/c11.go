package main

import (
	"fmt"
	"sync"

	"mc/bind"
	"mc/fam"
	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
)

type sizer interface {
	ZserioBitSize(bitPosition int) (int, error)
}

// C11: the size reported for a start position is the number of bits written
// there.
func init() {
	checks["C11"] = func(rp *rep.R) {
		max := 40
		if rp.Thorough() {
			max = 1500
		}
		set := fam.Get("C11", rp.Thorough())
		bind.Stale = true
		var mu sync.Mutex
		bounded := 0
		parallel(rp, set.Roots, func(r *fam.Root) {
			n, _, full := forValues(r, max, func(v *zs.Val, p map[string]int64) {
				for off := 0; off < 16; off++ {
					sizeOne(rp, r, v, p, off)
				}
			})
			mu.Lock()
			if !full {
				bounded++
			}
			mu.Unlock()
			rp.Count(n, n*32, n*16)
			rp.Add("types", 1)
		})
		rp.Add("types_explored_with_deviation_bound", bounded)
		rtArrays(rp, false, true)
		rtArrays(rp, true, true)
	}
}

func sizeOne(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64, off int) {
	want, merr := model(r, v, p, off)
	if merr != nil {
		return
	}
	o := build(r, v, p)
	check := func(when string) bool {
		var got int
		err, pan := guard(func() (err error) { got, err = o.(sizer).ZserioBitSize(off); return })
		if pan != "" || err != nil {
			rp.Fail(r.Desc, explain(r, v, p, off, "sizing %s fails: %v %s", when, err, pan))
			return false
		}
		if got != want.Len()-off {
			rp.Fail(r.Desc, explain(r, v, p, off, "size %s is %d, the encoding has %d bits", when, got, want.Len()-off))
			return false
		}
		rp.Distinct(fmt.Sprint(r.Name, off, got))
		return true
	}
	if !check("before encoding") {
		return
	}
	_, end, err, pan := marshalAt(o.(zserio.Marshaler), off)
	if err != nil || pan != "" || int(end) != want.Len() {
		rp.Fail(r.Desc, explain(r, v, p, off, "encoding after sizing: %d bits, want %d, %v %s", int(end)-off, want.Len()-off, err, pan))
		return
	}
	check("after encoding")
	if off == 5 {
		rp.Sample("%s value %s at bit 5: %d bits", r.Desc, zs.Show(r.T, v), want.Len()-off)
	}
}
