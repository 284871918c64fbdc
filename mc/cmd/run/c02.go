package main

import (
	"bytes"
	"fmt"
	"math"

	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/ztype"
)

// form checks one value of a non-integer codec at one start bit: its bits
// against the model's, and that reading it restores it.
func form(rp *rep.R, name string, t *zs.Type, v *zs.Val, off int, write func(w zserio.Writer) error, read func(r zserio.Reader) (string, error), want string) {
	m := &zs.Bits{}
	m.Put(1<<uint(off)-1, off)
	if err := zs.EncLeaf(m, t, v, nil); err != nil {
		panic(err)
	}
	show := func() string {
		s := fmt.Sprintf("%s %s at bit %d", name, zs.Show(t, v), off)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		return s
	}
	data, pos, err, pan := writeAt(off, write)
	if err != nil || pan != "" {
		rp.Fail(name, fmt.Sprintf("writing fails: %v %s\n%s", err, pan, show()))
		return
	}
	if int(pos) != m.Len() || !bytes.Equal(data, m.Bytes()) {
		g, w := fmt.Sprintf("% x", data), fmt.Sprintf("% x", m.Bytes())
		if len(g) > 300 {
			g = g[:300]
		}
		if len(w) > 300 {
			w = w[:300]
		}
		rp.Fail(name, fmt.Sprintf("wire form differs\n got %s (%d bits)\nwant %s (%d bits)\n%s", g, pos, w, m.Len(), show()))
		return
	}
	if len(data) < 64 {
		rp.Distinct(string(data))
	}
	readBack(rp, name, m, off, read, want, show)
}

func readBack(rp *rep.R, name string, m *zs.Bits, off int, read func(r zserio.Reader) (string, error), want string, show func() string) {
	s := &zs.Bits{B: append([]byte{}, m.B...)}
	s.Put(sentinel, sentinelBits)
	rd := readerAt(s, off)
	var got string
	err, pan := guard(func() (err error) { got, err = read(rd); return })
	if err != nil || pan != "" {
		rp.Fail(name, fmt.Sprintf("reading fails: %v %s\n%s", err, pan, show()))
		return
	}
	if got != want {
		if len(got) > 200 {
			got = got[:200]
		}
		rp.Fail(name, fmt.Sprintf("read back %q, want %.200q\n%s", got, want, show()))
		return
	}
	if x, err := rd.ReadBits(sentinelBits); err != nil || x != sentinel {
		rp.Fail(name, fmt.Sprintf("reading did not stop at the end (%v)\n%s", err, show()))
	}
}

func fstr(bits uint64, nan bool) string {
	if nan {
		return "NaN"
	}
	return fmt.Sprintf("%x", bits)
}

func init() {
	checks["C02"] = func(rp *rep.R) {
		offs := []int{0, 1, 2, 3, 4, 5, 6, 7}
		boolFloat16(rp, offs)
		float32s(rp, offs)
		float64s(rp, offs)
		strs(rp, offs)
		externs(rp, offs)
		badBuffers(rp)
	}
}

func boolFloat16(rp *rep.R, offs []int) {
	for _, off := range offs {
		for _, b := range []bool{false, true} {
			b := b
			v := zs.Int(0)
			if b {
				v = zs.Int(1)
			}
			form(rp, "bool", zs.Bool(), v, off, func(w zserio.Writer) error { return ztype.WriteBool(w, b) },
				func(r zserio.Reader) (string, error) { x, err := ztype.ReadBool(r); return fmt.Sprint(x), err }, fmt.Sprint(b))
			rp.Count(1, 2, 1)
		}
	}
	wr16 := func(f float32) func(w zserio.Writer) error {
		return func(w zserio.Writer) error { return ztype.WriteFloat16(w, f) }
	}
	rd16 := func(r zserio.Reader) (string, error) {
		f, err := ztype.ReadFloat16(r)
		return fstr(uint64(math.Float32bits(f)), f != f), err
	}
	// every half-precision pattern: read, and written back
	each(1<<16, func(i int) {
		h := uint16(i)
		f := zs.F32FromF16(h)
		nan := f != f
		for _, off := range offs {
			m := &zs.Bits{}
			m.Put(1<<uint(off)-1, off)
			m.Put(uint64(h), 16)
			readBack(rp, "float16", m, off, rd16, fstr(uint64(math.Float32bits(f)), nan), func() string { return fmt.Sprintf("pattern %#04x at bit %d", h, off) })
			if nan {
				data, pos, err, pan := writeAt(off, wr16(f))
				g := &zs.Bits{B: zs.FromBytes(data).B}
				if err != nil || pan != "" || int(pos) != off+16 {
					rp.Fail("float16", fmt.Sprintf("writing NaN: %v %s", err, pan))
					continue
				}
				var x uint16
				for _, b := range g.B[off : off+16] {
					x = x<<1 | uint16(b)
				}
				if x&0x7c00 != 0x7c00 || x&0x3ff == 0 {
					rp.Fail("float16", fmt.Sprintf("NaN %#04x is written as %#04x, no NaN", h, x))
				}
				continue
			}
			form(rp, "float16", zs.F16(), &zs.Val{I: int64(math.Float32bits(f))}, off, wr16(f), rd16, fstr(uint64(math.Float32bits(f)), false))
		}
		// rounding: the midpoint to the next half value and its neighbours
		if !nan && h&0x7fff < 0x7c00 {
			next := zs.F32FromF16(h + 1)
			if h&0x7fff == 0x7bff {
				next = float32(math.Copysign(65536, float64(f)))
			}
			mid := float32((float64(f) + float64(next)) / 2)
			mb := math.Float32bits(mid)
			for d := int64(-2); d <= 2; d++ {
				g := math.Float32frombits(uint32(int64(mb) + d))
				for _, q := range []float32{g} {
					hq := zs.F16FromF32(q)
					form(rp, "float16", zs.F16(), &zs.Val{I: int64(math.Float32bits(q))}, i%8, wr16(q), rd16, fstr(uint64(math.Float32bits(zs.F32FromF16(hq))), false))
				}
			}
		}
		rp.Count(1, 2*len(offs)+5, len(offs))
	})
	if rp.Thorough() {
		// every float32 to half precision
		each(1<<12, func(i int) {
			if rp.Out() {
				return
			}
			var buf bytes.Buffer
			for x := uint32(0); x < 1<<20; x++ {
				p := uint32(i)<<20 | x
				f := math.Float32frombits(p)
				buf.Reset()
				w := ztypeWriter(&buf)
				if err := ztype.WriteFloat16(w, f); err != nil {
					rp.Fail("float16", fmt.Sprintf("writing %v: %v", f, err))
					continue
				}
				b := buf.Bytes()
				got := uint16(b[0])<<8 | uint16(b[1])
				want := zs.F16FromF32(f)
				if f != f {
					if got&0x7c00 == 0x7c00 && got&0x3ff != 0 {
						continue
					}
				}
				if got != want {
					rp.Fail("float16", fmt.Sprintf("%v (%#08x) is written as %#04x, nearest is %#04x", f, p, got, want))
				}
			}
			rp.Count(1<<20, 1<<20, 1<<20)
		})
		rp.Add("all_float32_to_float16", 1)
	}
}

func float32s(rp *rep.R, offs []int) {
	var mans []uint32
	for s := uint(0); s < 23; s++ {
		mans = append(mans, 1<<s, 1<<s-1, 0x7fffff^(1<<s))
	}
	mans = append(mans, 0, 0x7fffff, 0x555555, 0x2aaaaa)
	each(512, func(se int) {
		for k, m := range mans {
			p := uint32(se)<<23 | m
			f := math.Float32frombits(p)
			off := offs[(k+se)%len(offs)]
			nan := f != f
			rd := func(r zserio.Reader) (string, error) {
				x, err := ztype.ReadFloat32(r)
				return fstr(uint64(math.Float32bits(x)), x != x), err
			}
			form(rp, "float32", zs.F32(), &zs.Val{I: int64(p)}, off, func(w zserio.Writer) error { return ztype.WriteFloat32(w, f) }, rd, fstr(uint64(p), nan))
		}
		rp.Count(len(mans), 2*len(mans), len(mans))
	})
}

func float64s(rp *rep.R, offs []int) {
	var mans []uint64
	for s := uint(0); s < 52; s++ {
		mans = append(mans, 1<<s, 1<<s-1, 1<<52-1^1<<s)
	}
	mans = append(mans, 0, 1<<52-1, 0x5555555555555, 0xaaaaaaaaaaaaa)
	step := 1
	each(4096/step, func(se int) {
		for k, m := range mans {
			if !rp.Thorough() && (k+se)%7 != 0 && se > 4 && se&0x7ff < 0x7fb {
				continue
			}
			p := uint64(se)<<52 | m
			f := math.Float64frombits(p)
			off := offs[(k+se)%len(offs)]
			rd := func(r zserio.Reader) (string, error) {
				x, err := ztype.ReadFloat64(r)
				return fstr(math.Float64bits(x), x != x), err
			}
			form(rp, "float64", zs.F64(), &zs.Val{I: int64(p)}, off, func(w zserio.Writer) error { return ztype.WriteFloat64(w, f) }, rd, fstr(p, f != f))
			rp.Count(1, 2, 1)
		}
	})
}

// contents: every byte string of length up to 2 over an alphabet, then
// patterned strings at lengths around the length header's sizes.
func contents(th bool) [][]byte {
	var r [][]byte
	al := []byte{0, 1, 0x7f, 0x80, 0xc3, 0xa9, 0xff, 'a'}
	r = append(r, nil)
	for _, a := range al {
		r = append(r, []byte{a})
		for _, b := range al {
			r = append(r, []byte{a, b})
			for _, c := range al {
				r = append(r, []byte{a, b, c})
			}
		}
	}
	for x := 0; x < 256; x++ {
		r = append(r, []byte{byte(x)})
	}
	lens := []int{4, 7, 8, 9, 31, 63, 64, 126, 127, 128, 129, 255, 256, 1023, 4095, 4096, 16382, 16383, 16384, 16385}
	if th {
		lens = append(lens, 1<<21-1, 1<<21, 1<<21+1)
	}
	for _, n := range lens {
		p := make([]byte, n)
		for i := range p {
			p[i] = byte(i*7 + i>>8 + 1)
		}
		r = append(r, p)
	}
	return r
}

func strs(rp *rep.R, offs []int) {
	cs := contents(rp.Thorough())
	each(len(cs), func(i int) {
		p := cs[i]
		for _, off := range offs {
			if len(p) > 100000 && off > 1 {
				continue
			}
			form(rp, "string", zs.String(), &zs.Val{S: p}, off, func(w zserio.Writer) error { return ztype.WriteString(w, string(p)) },
				func(r zserio.Reader) (string, error) { return ztype.ReadString(r) }, string(p))
			form(rp, "bytes", zs.Bytes(), &zs.Val{S: p}, off,
				func(w zserio.Writer) error {
					return ztype.WriteBytes(w, &ztype.BytesType{Buffer: append([]byte{}, p...), ByteSize: uint64(len(p))})
				},
				func(r zserio.Reader) (string, error) {
					b, err := ztype.ReadBytes(r)
					if err != nil {
						return "", err
					}
					return fmt.Sprintf("%d:%s", b.ByteSize, b.Buffer), nil
				}, fmt.Sprintf("%d:%s", len(p), p))
			rp.Count(2, 4, 2)
		}
	})
}

func extBits(s []byte, n uint64) string {
	b := zs.FromBytes(s).B
	if uint64(len(b)) < n {
		return "short"
	}
	return fmt.Sprintf("%d:%s", n, b[:n])
}

func externs(rp *rep.R, offs []int) {
	type c struct {
		n uint64
		b []byte
	}
	var cs []c
	max := 14
	if rp.Thorough() {
		max = 18
	}
	for n := 0; n <= max; n++ { // every content of n bits
		for x := 0; x < 1<<uint(n); x++ {
			v := uint32(x) << uint(32-n)
			if n == 0 {
				v = 0
			}
			b := []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
			cs = append(cs, c{uint64(n), b[:(n+7)/8]})
		}
	}
	for _, n := range []int{15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 1000, 1001, 1007, 16382, 16383, 16384, 16385, 16391} {
		for _, fill := range []byte{0, 0xff, 0xa5, 0x37} {
			b := make([]byte, (n+7)/8)
			for i := range b {
				b[i] = fill + byte(i)*(fill&1)
			}
			cs = append(cs, c{uint64(n), b})
		}
	}
	each(len(cs), func(i int) {
		x := cs[i]
		for _, off := range offs {
			want := extBits(x.b, x.n)
			rd := func(r zserio.Reader) (string, error) {
				e, err := ztype.ReadExtern(r)
				if err != nil {
					return "", err
				}
				if uint64(len(e.Buffer)) != (e.BitSize+7)/8 {
					return "", fmt.Errorf("buffer of %d bytes for %d bits", len(e.Buffer), e.BitSize)
				}
				return extBits(e.Buffer, e.BitSize), nil
			}
			b := append([]byte{}, x.b...)
			form(rp, "extern", zs.Extern(), &zs.Val{S: x.b, N: x.n}, off, func(w zserio.Writer) error {
				return ztype.WriteExtern(w, &ztype.ExternType{Buffer: b, BitSize: x.n})
			}, rd, want)
			// the bits behind the content do not matter
			if r := x.n % 8; r != 0 {
				b2 := append([]byte{}, x.b...)
				b2[len(b2)-1] |= 0xff >> r
				form(rp, "extern", zs.Extern(), &zs.Val{S: x.b, N: x.n}, off, func(w zserio.Writer) error {
					return ztype.WriteExtern(w, &ztype.ExternType{Buffer: b2, BitSize: x.n})
				}, rd, want)
			}
			rp.Count(1, 3, 2)
		}
	})
}

// badBuffers: a size that does not fit the buffer must not be reported as
// written, and nothing may panic.
func badBuffers(rp *rep.R) {
	for n := uint64(0); n <= 26; n++ {
		for l := 0; l <= 4; l++ {
			b := bytes.Repeat([]byte{0xd6}, l)
			data, pos, err, pan := writeAt(0, func(w zserio.Writer) error {
				return ztype.WriteExtern(w, &ztype.ExternType{Buffer: b, BitSize: n})
			})
			rp.Count(1, 1, 1)
			if pan != "" {
				rp.Fail("extern size and buffer disagree", fmt.Sprintf("writing an extern of %d bits from %d bytes panics: %s", n, l, pan))
			} else if err == nil {
				m := &zs.Bits{}
				ok := uint64(l*8) >= n
				if ok {
					zs.EncLeaf(m, zs.Extern(), &zs.Val{S: b, N: n}, nil)
				}
				if !ok || int(pos) != m.Len() || !bytes.Equal(data, m.Bytes()) {
					rp.Fail("extern size and buffer disagree", fmt.Sprintf("writing an extern of %d bits from %d bytes: wrote %d bits % x", n, l, pos, data))
				}
			}
			_, pos, err, pan = writeAt(0, func(w zserio.Writer) error {
				return ztype.WriteBytes(w, &ztype.BytesType{Buffer: b, ByteSize: n})
			})
			if pan != "" {
				rp.Fail("bytes size and buffer disagree", fmt.Sprintf("writing %d bytes from a buffer of %d panics: %s", n, l, pan))
			} else if err == nil && uint64(pos) != 8+8*n {
				rp.Fail("bytes size and buffer disagree", fmt.Sprintf("writing %d bytes from a buffer of %d: wrote %d bits", n, l, pos))
			}
		}
	}
	_, _, err, pan := writeAt(0, func(w zserio.Writer) error { return ztype.WriteExtern(w, nil) })
	if pan != "" || err == nil {
		rp.Fail("nil extern", fmt.Sprintf("writing a missing extern must be an error: %v %s", err, pan))
	}
	_, _, err, pan = writeAt(0, func(w zserio.Writer) error { return ztype.WriteBytes(w, nil) })
	if pan != "" || err == nil {
		rp.Fail("nil bytes", fmt.Sprintf("writing missing bytes must be an error: %v %s", err, pan))
	}
	if _, pan := guard(func() error { _, err := ztype.BitSizeOfExtern(nil); return err }); pan != "" {
		rp.Fail("nil extern", "sizing a missing extern panics: "+pan)
	}
	if _, pan := guard(func() error { _, err := ztype.BitSizeOfBytes(nil); return err }); pan != "" {
		rp.Fail("nil bytes", "sizing missing bytes panics: "+pan)
	}
}
