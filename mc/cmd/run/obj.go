package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"mc/bind"
	"mc/fam"
	"mc/rep"
	"mc/zs"
	"zg/reg"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
)

// newObj makes an empty object of a root type.
func newObj(r *fam.Root) zserio.ZserioType {
	f := reg.New[r.Name]
	if f == nil {
		panic("not registered: " + r.Name)
	}
	return f().(zserio.ZserioType)
}

// build makes an object holding v.
func build(r *fam.Root, v *zs.Val, p map[string]int64) zserio.ZserioType {
	o := newObj(r)
	bind.Set(reflect.ValueOf(o).Elem(), r.T, v, p)
	return o
}

func setParams(o any, t *zs.Type, p map[string]int64) {
	e := &zs.Val{E: make([]*zs.Val, len(t.Fields)), Tag: -1}
	bind.Set(reflect.ValueOf(o).Elem(), &zs.Type{K: zs.KStruct, Params: t.Params}, e, p)
}

func diff(r *fam.Root, o any, v *zs.Val, p map[string]int64) string {
	return bind.Diff(reflect.ValueOf(o).Elem(), r.T, v, p, r.T.Name)
}

// guard turns a panic into an error string.
func guard(f func() error) (err error, panicked string) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 3000)
			buf = buf[:runtime.Stack(buf, false)]
			panicked = fmt.Sprintf("panic: %v\n%s", x, buf)
		}
	}()
	return f(), ""
}

// marshalAt writes o after off leading one bits and returns everything written,
// padded to bytes, with the bit position at the end.
func marshalAt(o zserio.Marshaler, off int) (data []byte, end int64, err error, panicked string) {
	var buf bytes.Buffer
	w := zstream.NewWriter(&buf)
	if off > 0 {
		w.WriteBits(1<<uint(off)-1, uint8(off))
	}
	err, panicked = guard(func() error { return o.MarshalZserio(w) })
	if err != nil || panicked != "" {
		return
	}
	end = w.BitPosition()
	err = w.Close()
	data = buf.Bytes()
	return
}

// model encodes v after off leading one bits.
func model(r *fam.Root, v *zs.Val, p map[string]int64, off int) (*zs.Bits, error) {
	b := &zs.Bits{}
	b.Put(1<<uint(off)-1, off)
	err := zs.Enc(b, r.T, v, p)
	return b, err
}

// unmarshalAt decodes from the bits b (which start with off skipped bits) and
// checks that exactly the bits of b are consumed, by a sentinel behind them.
func unmarshalAt(o zserio.Unmarshaler, b *zs.Bits, off int) (err error, why string) {
	const sentinel, sbits = 0x2d95, 14
	s := &zs.Bits{B: append([]byte{}, b.B...)}
	s.Put(sentinel, sbits)
	rd := zstream.NewReader(bytes.NewReader(s.Bytes()))
	if off > 0 {
		if _, err := rd.ReadBits(uint8(off)); err != nil {
			return err, ""
		}
	}
	err, p := guard(func() error { return o.UnmarshalZserio(rd) })
	if p != "" {
		return nil, p
	}
	if err != nil {
		return err, ""
	}
	x, err := rd.ReadBits(sbits)
	if err != nil || x != sentinel {
		return nil, fmt.Sprintf("decoding did not stop at the end of the encoding (%d bits)", b.Len()-off)
	}
	return nil, ""
}

func schemaOf(r *fam.Root) string {
	p := os.Getenv("WORK_DIR") + "/zs/" + strings.ReplaceAll(r.Pkg, ".", "_") + ".zs"
	return p
}

func explain(r *fam.Root, v *zs.Val, p map[string]int64, off int, format string, a ...any) string {
	return fmt.Sprintf(format, a...) + fmt.Sprintf("\ntype %s (%s), schema %s\nparameters %v start bit %d\nvalue %s\n\n%s", r.Name, r.Desc, schemaOf(r), p, off, zs.Show(r.T, v), declText(r.T, map[string]bool{}))
}

func declText(t *zs.Type, seen map[string]bool) string {
	if !t.Declared() || seen[t.Name] {
		return ""
	}
	seen[t.Name] = true
	s := t.Decl()
	for _, f := range t.Fields {
		s += declText(f.T, seen)
	}
	return s
}

// forValues enumerates the values of a root within its bounds, at most cap of
// them without a deviation bound, otherwise with the largest bound that fits.
func forValues(r *fam.Root, max int, f func(v *zs.Val, p map[string]int64)) (n int, bound int, exhaustive bool) {
	ps := r.P
	if ps == nil {
		ps = []map[string]int64{nil}
	}
	if r.Max > max {
		max = r.Max
	}
	bound = pickBound(r, ps, max)
	for _, p := range ps {
		ch := zs.NewChooser(bound)
		for {
			ch.Start()
			v := zs.Gen(ch, r.T, p, r.Lim)
			f(v, p)
			n++
			if !ch.Next() {
				break
			}
		}
	}
	return n, bound, bound < 0
}

func pickBound(r *fam.Root, ps []map[string]int64, max int) int {
	for _, b := range []int{-1, 5, 4, 3, 2} {
		n := 0
		ok := true
		for _, p := range ps {
			ch := zs.NewChooser(b)
			for ok {
				ch.Start()
				zs.Gen(ch, r.T, p, r.Lim)
				n++
				if n > max {
					ok = false
				}
				if !ch.Next() {
					break
				}
			}
		}
		if ok {
			return b
		}
	}
	return 1
}

// parallel runs f over the roots on all cores.
func parallel(rp *rep.R, roots []*fam.Root, f func(r *fam.Root)) {
	var wg sync.WaitGroup
	ch := make(chan *fam.Root)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range ch {
				if rp.Out() {
					continue
				}
				f(r)
			}
		}()
	}
	for _, r := range roots {
		ch <- r
	}
	close(ch)
	wg.Wait()
}

// codecCheck is the conformance check of the families: for every type, value
// and start offset, the real encoding equals the model's and decodes back.
func codecCheck(rp *rep.R, set *fam.Set, max int, offs []int) {
	bounded := 0
	var mu sync.Mutex
	parallel(rp, set.Roots, func(r *fam.Root) {
		n, bound, full := forValues(r, max, func(v *zs.Val, p map[string]int64) {
			for _, off := range offs {
				codecOne(rp, r, v, p, off)
			}
		})
		mu.Lock()
		if !full {
			bounded++
		}
		mu.Unlock()
		_ = bound
		rp.Count(n, n*len(offs)*2, n*len(offs))
		rp.Add("types", 1)
	})
	rp.Add("types_explored_with_deviation_bound", bounded)
}

func codecOne(rp *rep.R, r *fam.Root, v *zs.Val, p map[string]int64, off int) {
	want, merr := model(r, v, p, off)
	o := build(r, v, p)
	got, end, err, pan := marshalAt(o, off)
	key := r.Desc
	if pan != "" {
		rp.Fail(key, explain(r, v, p, off, "encoding panics: %s", pan))
		return
	}
	if merr != nil {
		if err == nil {
			rp.Fail(key, explain(r, v, p, off, "encoding succeeds, must fail: %v", merr))
		}
		return
	}
	if err != nil {
		rp.Fail(key, explain(r, v, p, off, "encoding fails: %v", err))
		return
	}
	if int(end) != want.Len() || !bytes.Equal(got, want.Bytes()) {
		g := zs.FromBytes(got)
		if int(end) <= g.Len() {
			g.B = g.B[:end]
		}
		rp.Fail(key, explain(r, v, p, off, "encoding differs\n got %s\nwant %s", g, want))
		return
	}
	rp.Distinct(string(got))
	o2 := newObj(r)
	setParams(o2, r.T, p)
	err, why := unmarshalAt(o2, want, off)
	if why != "" || err != nil {
		rp.Fail(key, explain(r, v, p, off, "decoding fails: %v %s", err, why))
		return
	}
	if d := diff(r, o2, v, p); d != "" {
		rp.Fail(key, explain(r, v, p, off, "decoded object differs: %s", d))
		return
	}
	if off == 0 {
		data, err := zserio.Marshal(o)
		if err != nil || !bytes.Equal(data, want.Bytes()) {
			rp.Fail(key, explain(r, v, p, off, "zserio.Marshal: %v %x", err, data))
			return
		}
		// into an object that holds what was decoded before
		o3, used := r.Last.(zserio.ZserioType)
		if !used {
			o3 = newObj(r)
		}
		r.Last = o3
		setParams(o3, r.T, p)
		err, pan := guard(func() error { return zserio.Unmarshal(data, o3) })
		if err != nil || pan != "" {
			rp.Fail(key, explain(r, v, p, off, "zserio.Unmarshal: %v %s", err, pan))
			return
		}
		if used {
			bind.Forget(reflect.ValueOf(o3).Elem(), r.T, v)
		}
		if d := diff(r, o3, v, p); d != "" {
			rp.Fail(key, explain(r, v, p, off, "object decoded by zserio.Unmarshal (into one used before: %v) differs: %s", used, d))
			return
		}
	}
	if off == 3 {
		rp.Sample("%s value %s at bit 3 -> %s", r.Desc, zs.Show(r.T, v), want)
	}
}
