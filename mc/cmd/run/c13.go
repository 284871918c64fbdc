package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"mc/bind"
	"mc/fam"
	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
)

// C13: every short byte string, and every truncation and local corruption of
// valid encodings, decoded by the real code and by the model.
func init() {
	checks["C13"] = func(rp *rep.R) {
		max, all := 10, 1
		if rp.Thorough() {
			max, all = 100, 2
		}
		set := fam.Get("C13", rp.Thorough())
		bind.Stale = false
		parallel(rp, set.Roots, func(r *fam.Root) {
			rp.Add("types", 1)
			ps := r.P
			if ps == nil {
				ps = []map[string]int64{nil}
			}
			for _, p := range ps {
				d := &decoder{rp: rp, r: r, p: p, seen: map[string]bool{}}
				for n := 0; n <= all; n++ {
					for x := 0; x < 1<<uint(8*n); x++ {
						d.try([]byte{byte(x >> 8), byte(x)}[2-n:])
					}
				}
			}
			ds := map[string]*decoder{}
			forValues(r, max, func(v *zs.Val, p map[string]int64) {
				want, err := model(r, v, p, 0)
				if err != nil {
					return
				}
				k := fmt.Sprint(p)
				if ds[k] == nil {
					ds[k] = &decoder{rp: rp, r: r, p: p, seen: map[string]bool{}}
				}
				ds[k].around(want.Bytes(), rp.Thorough())
			})
		})
	}
}

type decoder struct {
	rp     *rep.R
	r      *fam.Root
	p      map[string]int64
	seen   map[string]bool
	failed int // a type that fails is not explored further
}

// around decodes the neighbourhood of a valid encoding.
func (d *decoder) around(e []byte, th bool) {
	lim := len(e)
	if !th && lim > 40 {
		lim = 40
	}
	for k := 0; k <= len(e); k++ {
		if k <= lim || k >= len(e)-3 {
			d.try(e[:k])
		}
	}
	// lengths that are out of all proportion to the data
	for _, n := range [][]byte{
		{0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
		{0x7f, 0xff, 0xff, 0xff}, {0x40, 0, 0, 0}, {0x80, 0, 0, 0},
		{0x40, 0, 0, 0, 0, 0, 0, 0}, {0x80, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 0, 0, 0, 0},
		{0, 0x80, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0x80, 0, 0, 0},
	} {
		for _, t := range [][]byte{nil, {0x5a, 0xa5, 0x80}, {0x80, 0x82, 1, 0x81, 3, 2, 1}, e} {
			d.try(append(append([]byte{}, n...), t...))
		}
	}
	tails := [][]byte{nil, {0, 0, 0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}
	for i := 0; i < lim; i++ {
		for b := 0; b < 8; b++ {
			for _, t := range tails {
				x := append(append([]byte{}, e...), t...)
				x[i] ^= 1 << uint(b)
				d.try(x)
			}
		}
		for _, y := range []byte{0, 0xff, 0x80, 0x7f, 0x3f, 0xc0, 0x40} {
			for _, t := range tails {
				x := append(append([]byte{}, e...), t...)
				x[i] = y
				d.try(x)
			}
			if i+1 < lim {
				x := append(append([]byte{}, e...), tails[1]...)
				x[i], x[i+1] = y, y
				d.try(x)
			}
		}
		// a long form at this place
		x := append(append([]byte{}, e[:i]...), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff)
		d.try(x)
		d.try(append(append([]byte{}, e[:i]...), 0x87, 0xff, 0xff, 0xff, 0xff))
		d.try(append(append([]byte{}, e[:i]...), 0x81, 0x80, 0x80, 0))
	}
}

func (d *decoder) try(in []byte) {
	if d.failed > 3 || d.seen[string(in)] {
		return
	}
	d.seen[string(in)] = true
	rp, r, p := d.rp, d.r, d.p
	mr := &zs.Rd{B: zs.FromBytes(in).B}
	want, merr := zs.Dec(mr, r.T, p)
	if errors.Is(merr, zs.ErrHuge) {
		rp.Add("inputs_with_huge_values_skipped", 1)
		return
	}
	if errors.Is(merr, zs.ErrUnspecified) {
		rp.Add("inputs_without_defined_outcome_skipped", 1)
		return
	}
	rp.Count(1, 1, 1)
	fail := func(format string, a ...any) {
		vs := ""
		if want != nil && merr == nil {
			vs = "\nvalue " + zs.Show(r.T, want)
		}
		key := r.Desc
		switch {
		case errors.Is(merr, zs.ErrIndex) && strings.HasPrefix(format, "decoding panics") && strings.Contains(fmt.Sprint(a...), "index out of range ["):
			key = "array index out of range in an expression"
		case errors.Is(merr, zs.ErrDiv) && strings.HasPrefix(format, "decoding panics") && strings.Contains(fmt.Sprint(a...), "integer divide by zero"):
			key = "division by zero in an expression"
		}
		if rp.Fail(key, fmt.Sprintf(format, a...)+fmt.Sprintf("\ntype %s (%s), schema %s\nparameters %v input % x%s\n\n%s", r.Name, r.Desc, schemaOf(r), p, in, vs, declText(r.T, map[string]bool{}))) {
			d.failed++
		}
	}
	o := newObj(r)
	setParams(o, r.T, p)
	rd := zstream.NewReader(bytes.NewReader(in))
	err, pan := guard(func() error { return o.UnmarshalZserio(rd) })
	if pan != "" {
		fail("decoding panics: %s", pan)
		return
	}
	if len(in) <= 2 || merr != nil {
		// the way users decode
		whole := newObj(r)
		setParams(whole, r.T, p)
		werr, pan := guard(func() error { return zserio.Unmarshal(in, whole) })
		if pan != "" || (werr == nil) != (err == nil) {
			fail("zserio.Unmarshal: %v %s, but UnmarshalZserio: %v", werr, pan, err)
			return
		}
	}
	if merr != nil {
		if err == nil {
			fail("decoding succeeds, must fail: %v", merr)
		}
		return
	}
	if err != nil {
		fail("decoding fails: %v", err)
		return
	}
	if pos, err := rd.Align(1); err != nil || int(pos) != mr.Pos {
		fail("decoding consumed %d bits, want %d", pos, mr.Pos)
		return
	}
	if x := diff(r, o, want, p); x != "" {
		fail("decoded object differs: %s", x)
		return
	}
	// what was decoded can be encoded and decoded again
	canon, err := model(r, want, p, 0)
	if err != nil {
		fail("the model cannot encode what it decoded: %v", err)
		return
	}
	out, end, err, pan := marshalAt(o, 0)
	if err != nil || pan != "" {
		fail("encoding what was decoded fails: %v %s", err, pan)
		return
	}
	if hasNaN16(r.T) {
		canon = zs.FromBytes(out)
	} else if int(end) != canon.Len() || !bytes.Equal(out, canon.Bytes()) {
		fail("re-encoding differs\n got %s\nwant %s", zs.FromBytes(out), canon)
		return
	}
	o2 := newObj(r)
	setParams(o2, r.T, p)
	err, pan = guard(func() error { return zserio.Unmarshal(out, o2) })
	if err != nil || pan != "" {
		fail("decoding the re-encoding fails: %v %s", err, pan)
		return
	}
	if x := diff(r, o2, want, p); x != "" {
		fail("object changes by encoding and decoding: %s", x)
		return
	}
	rp.Distinct(r.Name + string(out))
}

// hasNaN16: a half-precision NaN has no canonical pattern.
func hasNaN16(t *zs.Type) bool {
	if t.K == zs.KF16 {
		return true
	}
	for _, f := range t.Fields {
		if hasNaN16(f.T) {
			return true
		}
	}
	return false
}
