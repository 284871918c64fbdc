package main

import (
	"bytes"
	"fmt"
	"io"

	"mc/fam"
	"mc/rep"
	"mc/zs"

	"github.com/woven-planet/go-zserio/zstream"
)

// C14: every way the underlying reader may deliver the bytes, and every point
// at which it may fail.
func init() {
	checks["C14"] = func(rp *rep.R) {
		max := 8
		if rp.Thorough() {
			max = 150
		}
		set := fam.Get("C14", rp.Thorough())
		parallel(rp, set.Roots, func(r *fam.Root) {
			rp.Add("types", 1)
			forValues(r, max, func(v *zs.Val, p map[string]int64) {
				want, err := model(r, v, p, 0)
				if err != nil {
					return
				}
				rp.Count(1, 0, 0)
				readFaults(rp, r, v, p, want)
				shortReads(rp, r, v, p, want)
			})
		})
	}
}

func readFaults(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64, want *zs.Bits) {
	fail := func(format string, a ...any) { rp.Fail(r.Desc, explain(r, v, p, 0, format, a...)) }
	// behind the value there is more to read, so that a missing byte would be noticed only by its error
	data := append(append([]byte{}, want.Bytes()...), 0xa5, 0x5a, 0xa5, 0x5a)
	total := 0
	for _, e := range []error{errInjected, io.EOF} {
		for k := -1; k < total || k < 0; k++ {
			o := newObj(r)
			setParams(o, r.T, p)
			rd := &opReader{r: zstream.NewReader(bytes.NewReader(data)), fail: k, err: e}
			err, pan := guard(func() error { return o.UnmarshalZserio(rd) })
			rp.Count(0, 1, 1)
			if pan != "" {
				fail("panics when reader operation %d fails: %s", k, pan)
				return
			}
			if k < 0 {
				if err != nil {
					fail("decoding fails: %v", err)
					return
				}
				if d := diff(r, o, v, p); d != "" {
					fail("decoded object differs: %s", d)
					return
				}
				total = rd.n
				continue
			}
			if err == nil {
				fail("reader operation %d of %d fails (%v), yet decoding reports success", k, total, e)
				return
			}
		}
	}
	rp.Distinct(fmt.Sprint(r.Name, total))
	need := len(want.Bytes())
	for at := 0; at < need; at++ {
		for m := 0; m < 8; m++ {
			e := errInjected
			if m&1 != 0 {
				e = io.EOF
			}
			fr := &faultReader{p: data, at: at, once: m&2 != 0, with: m&4 != 0, err: e}
			o := newObj(r)
			setParams(o, r.T, p)
			err, pan := guard(func() error { return o.UnmarshalZserio(zstream.NewReader(fr)) })
			rp.Count(0, 1, 1)
			if pan != "" {
				fail("panics when reading byte %d fails: %s", at, pan)
				return
			}
			if err == nil {
				if fr.once && fr.with {
					// an error delivered along with enough bytes may be overlooked, but the value must be right
					if d := diff(r, o, v, p); d == "" {
						continue
					}
				}
				fail("byte %d of %d is never delivered (%v), yet decoding reports success", at, need, e)
				return
			}
		}
	}
}

func shortReads(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64, want *zs.Bits) {
	fail := func(format string, a ...any) { rp.Fail(r.Desc, explain(r, v, p, 0, format, a...)) }
	run := func(what string, choose func(n, left int) (int, bool)) bool {
		cr := &chunkReader{p: want.Bytes(), choose: choose}
		o := newObj(r)
		setParams(o, r.T, p)
		err, pan := guard(func() error { return o.UnmarshalZserio(zstream.NewReader(cr)) })
		rp.Count(0, 1, 1)
		if err != nil || pan != "" {
			fail("%s: decoding fails: %v %s", what, err, pan)
			return false
		}
		if d := diff(r, o, v, p); d != "" {
			fail("%s: decoded object differs: %s", what, d)
			return false
		}
		return true
	}
	for k := 1; k <= 3; k++ {
		if !run(fmt.Sprintf("at most %d bytes at a time", k), func(n, left int) (int, bool) { return k, false }) {
			return
		}
		if !run(fmt.Sprintf("at most %d bytes at a time, the end reported with the last", k), func(n, left int) (int, bool) { return k, true }) {
			return
		}
	}
	z := 0
	if !run("an empty read before each byte", func(n, left int) (int, bool) { z++; return z % 2, false }) {
		return
	}
	if !run("the end reported with the last bytes", func(n, left int) (int, bool) { return n, true }) {
		return
	}
	// every sequence of short answers with at most two that are not full
	ch := zs.NewChooser(2)
	for i := 0; i < 400; i++ {
		ch.Start()
		var log []int
		ok := run("chunks", func(n, left int) (int, bool) {
			m := n
			if m > left {
				m = left
			}
			opts := m // full, then 1..m-1 bytes, bounded
			if opts > 5 {
				opts = 5
			}
			c := ch.Choose(opts)
			k := m
			if c > 0 {
				k = c
			}
			log = append(log, k)
			return k, false
		})
		if !ok {
			return
		}
		if !ch.Next() {
			return
		}
	}
	rp.Add("chunkings_cut_at_400", 1)
}
