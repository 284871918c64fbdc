package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"sync"

	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
)

// codec is one runtime write/read pair next to the model's form. Values travel
// as int64 bit patterns.
type codec struct {
	name  string
	lo    int64 // range of values the Go signature can carry
	hi    uint64
	bits  int  // width of the Go value
	sgn   bool // Go value is signed
	enc   func(b *zs.Bits, v int64) error
	write func(w zserio.Writer, v int64) error
	read  func(r zserio.Reader) (int64, error)
	varB  int // max bytes of a variable-size form
}

func fixEnc(t *zs.Type) func(b *zs.Bits, v int64) error {
	return func(b *zs.Bits, v int64) error { return zs.EncLeaf(b, t, &zs.Val{I: v}, nil) }
}
func varEnc(signed bool, n int) func(b *zs.Bits, v int64) error {
	return func(b *zs.Bits, v int64) error { return zs.PutVar(b, signed, n, v) }
}

func sc[T ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64](name string, bits int, sgn bool, enc func(b *zs.Bits, v int64) error, varB int, wr func(zserio.Writer, T) error, rd func(zserio.Reader) (T, error)) codec {
	return codec{name: name, bits: bits, sgn: sgn, enc: enc, varB: varB,
		write: func(w zserio.Writer, v int64) error { return wr(w, T(v)) },
		read:  func(r zserio.Reader) (int64, error) { x, err := rd(r); return int64(x), err }}
}

func codecs() []codec {
	cs := []codec{
		sc("uint8", 8, false, fixEnc(zs.UInt(8)), 0, ztype.WriteUint8, ztype.ReadUint8),
		sc("uint16", 16, false, fixEnc(zs.UInt(16)), 0, ztype.WriteUint16, ztype.ReadUint16),
		sc("uint32", 32, false, fixEnc(zs.UInt(32)), 0, ztype.WriteUint32, ztype.ReadUint32),
		sc("uint64", 64, false, fixEnc(zs.UInt(64)), 0, ztype.WriteUint64, ztype.ReadUint64),
		sc("int8", 8, true, fixEnc(zs.SInt(8)), 0, ztype.WriteInt8, ztype.ReadInt8),
		sc("int16", 16, true, fixEnc(zs.SInt(16)), 0, ztype.WriteInt16, ztype.ReadInt16),
		sc("int32", 32, true, fixEnc(zs.SInt(32)), 0, ztype.WriteInt32, ztype.ReadInt32),
		sc("int64", 64, true, fixEnc(zs.SInt(64)), 0, ztype.WriteInt64, ztype.ReadInt64),
		sc("varint16", 16, true, varEnc(true, 2), 2, ztype.WriteVarint16, ztype.ReadVarint16),
		sc("varint32", 32, true, varEnc(true, 4), 4, ztype.WriteVarint32, ztype.ReadVarint32),
		sc("varint64", 64, true, varEnc(true, 8), 8, ztype.WriteVarint64, ztype.ReadVarint64),
		sc("varint", 64, true, varEnc(true, 9), 9, ztype.WriteVarint, ztype.ReadVarint),
		sc("varuint16", 16, false, varEnc(false, 2), 2, ztype.WriteVaruint16, ztype.ReadVaruint16),
		sc("varuint32", 32, false, varEnc(false, 4), 4, ztype.WriteVaruint32, ztype.ReadVaruint32),
		sc("varuint64", 64, false, varEnc(false, 8), 8, ztype.WriteVaruint64, ztype.ReadVaruint64),
		sc("varuint", 64, false, varEnc(false, 9), 9, ztype.WriteVaruint, ztype.ReadVaruint),
		sc("varsize", 64, false, varEnc(false, 5), 5, ztype.WriteVarsize, ztype.ReadVarsize),
	}
	for n := 1; n <= 64; n++ {
		n := n
		cs = append(cs,
			codec{name: fmt.Sprintf("bit:%d", n), bits: 64, enc: fixEnc(zs.Bit(n)),
				write: func(w zserio.Writer, v int64) error { return ztype.WriteUnsignedBits(w, uint64(v), uint8(n)) },
				read: func(r zserio.Reader) (int64, error) {
					x, err := ztype.ReadUnsignedBits(r, uint8(n))
					return int64(x), err
				}},
			codec{name: fmt.Sprintf("int:%d", n), bits: 64, sgn: true, enc: fixEnc(zs.IntN(n)),
				write: func(w zserio.Writer, v int64) error { return ztype.WriteSignedBits(w, v, uint8(n)) },
				read:  func(r zserio.Reader) (int64, error) { return ztype.ReadSignedBits(r, uint8(n)) }})
	}
	return cs
}

// intValues is the value set of a codec: everything of up to full bits, and
// for wider values everything within near of a power of two, every byte
// position holding every byte over a background of zeros or ones, and patterns.
func intValues(c codec, full uint, near int64) []int64 {
	m := map[int64]bool{}
	add := func(v int64) {
		if c.bits < 64 {
			if c.sgn {
				v = v << uint(64-c.bits) >> uint(64-c.bits)
			} else {
				v = int64(uint64(v) << uint(64-c.bits) >> uint(64-c.bits))
			}
		}
		m[v] = true
	}
	for v := int64(0); v < 1<<full; v++ {
		add(v)
		add(-v)
	}
	for s := uint(0); s < 64; s++ {
		for d := -near; d <= near; d++ {
			add(1<<s + d)
			add(-(1 << s) + d)
			add(math.MaxInt64 ^ (1 << s) + d)
		}
		for x := int64(0); x < 256; x++ {
			add(x << s)
			add(^(x << s))
		}
	}
	for _, v := range []uint64{0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0x0123456789abcdef, 0xfedcba9876543210, 0x8000000000000001, 0x7ffffffffffffffe} {
		for s := uint(0); s < 64; s++ {
			add(int64(v >> s))
			add(int64(v) >> s)
		}
	}
	out := make([]int64, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// writeAt writes f's output after off one bits; the writer takes nothing
// beyond what f wrote.
func writeAt(off int, f func(w zserio.Writer) error) (data []byte, pos int64, err error, pan string) {
	var buf bytes.Buffer
	w := zstream.NewWriter(&buf)
	if off > 0 {
		w.WriteBits(1<<uint(off)-1, uint8(off))
	}
	err, pan = guard(func() error { return f(w) })
	pos = w.BitPosition()
	w.Close()
	return buf.Bytes(), pos, err, pan
}

func readerAt(b *zs.Bits, off int) *zstream.BitReader {
	rd := zstream.NewReader(bytes.NewReader(b.Bytes()))
	if off > 0 {
		rd.ReadBits(uint8(off))
	}
	return rd
}

const sentinel, sentinelBits = 0x5a3c99, 23

func each(n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

func init() {
	checks["C01"] = func(rp *rep.R) {
		full, near := uint(11), int64(3)
		offs := []int{0, 1, 3, 7}
		if rp.Thorough() {
			full, near = 17, 300
			offs = []int{0, 1, 2, 3, 4, 5, 6, 7}
		}
		cs := codecs()
		each(len(cs), func(i int) {
			c := cs[i]
			fl := full
			if c.bits <= 16 {
				fl = 16
			}
			vals := intValues(c, fl, near)
			for _, v := range vals {
				for _, off := range offs {
					intOne(rp, c, v, off)
				}
			}
			rp.Count(len(vals), len(vals)*len(offs)*2, len(vals)*len(offs))
			rp.Add("codecs", 1)
			if c.varB > 0 {
				varReads(rp, c)
			}
		})
		limits(rp, cs)
		// dynamic widths no integer has: an error, never a panic or a success
		// that reads back differently
		for n := 65; n <= 255; n++ {
			for _, v := range []int64{0, 1, -1, math.MinInt64} {
				for _, s := range []bool{false, true} {
					badWidth(rp, n, v, s)
				}
			}
		}
	}
}

func badWidth(rp *rep.R, n int, v int64, signed bool) {
	rp.Count(1, 2, 1)
	key := fmt.Sprintf("width>64 signed=%v", signed)
	_, _, err, pan := writeAt(0, func(w zserio.Writer) error {
		if signed {
			return ztype.WriteSignedBits(w, v, uint8(n))
		}
		return ztype.WriteUnsignedBits(w, uint64(v), uint8(n))
	})
	if pan != "" || err == nil {
		rp.Fail(key, fmt.Sprintf("writing %d with %d bits must be an error: %v %s", v, n, err, pan))
	}
	rd := zstream.NewReader(bytes.NewReader(bytes.Repeat([]byte{0xa5}, 64)))
	err, pan = guard(func() error {
		if signed {
			_, err := ztype.ReadSignedBits(rd, uint8(n))
			return err
		}
		_, err := ztype.ReadUnsignedBits(rd, uint8(n))
		return err
	})
	if pan != "" || err == nil {
		rp.Fail(key, fmt.Sprintf("reading %d bits must be an error: %v %s", n, err, pan))
	}
}

func intOne(rp *rep.R, c codec, v int64, off int) {
	want := &zs.Bits{}
	want.Put(1<<uint(off)-1, off)
	merr := c.enc(want, v)
	data, pos, err, pan := writeAt(off, func(w zserio.Writer) error { return c.write(w, v) })
	fail := func(f string, a ...any) {
		rp.Fail(c.name, fmt.Sprintf(f, a...)+fmt.Sprintf("\n%s value %d (%#x) at bit %d", c.name, v, uint64(v), off))
	}
	if pan != "" {
		fail("writing panics: %s", pan)
		return
	}
	if merr != nil {
		if err == nil {
			fail("writing a value the type cannot represent succeeds")
		}
		return
	}
	if err != nil {
		fail("writing fails: %v", err)
		return
	}
	if int(pos) != want.Len() || !bytes.Equal(data, want.Bytes()) {
		fail("wire form differs\n got %s\nwant %s", zs.FromBytes(data), want)
		return
	}
	rp.Distinct(string(data))
	s := &zs.Bits{B: append([]byte{}, want.B...)}
	s.Put(sentinel, sentinelBits)
	rd := readerAt(s, off)
	var got int64
	err, pan = guard(func() (err error) { got, err = c.read(rd); return })
	if err != nil || pan != "" {
		fail("reading fails: %v %s", err, pan)
		return
	}
	if got != v {
		fail("read back %d", got)
		return
	}
	if x, err := rd.ReadBits(sentinelBits); err != nil || x != sentinel {
		fail("reading did not stop at the end of the value (%v)", err)
	}
}

// modelReadVar decodes a variable-size form from bytes.
func modelReadVar(signed bool, maxB int, p []byte) (v int64, n int, ok bool) {
	var a uint64
	neg := false
	for n < maxB {
		if n >= len(p) {
			return 0, n, false
		}
		x := uint64(p[n])
		w := uint(8)
		if n == 0 && signed {
			neg = x&0x80 != 0
			w--
			x &= 0x7f
		}
		more := false
		if n < maxB-1 {
			w--
			more = x>>w&1 == 1
			x &= 1<<w - 1
		}
		a = a<<w | x
		n++
		if !more {
			break
		}
	}
	if signed && maxB == 9 && n == 1 && neg && a == 0 {
		return math.MinInt64, n, true
	}
	if maxB == 5 && a > math.MaxInt32 {
		return 0, n, false
	}
	v = int64(a)
	if neg {
		v = -v
	}
	return v, n, true
}

// varReads reads every byte string of length up to 2, and of greater lengths
// every byte at every position over structured backgrounds, including forms no
// writer produces.
func varReads(rp *rep.R, c codec) {
	try := func(p []byte) {
		want, n, ok := modelReadVar(c.sgn, c.varB, p)
		rd := zstream.NewReader(bytes.NewReader(p))
		got, err := c.read(rd)
		rp.Count(1, 1, 1)
		if ok != (err == nil) || ok && got != want {
			rp.Fail(c.name, fmt.Sprintf("reading % x as %s: got %d, %v; want %d, valid=%v", p, c.name, got, err, want, ok))
			return
		}
		if ok {
			if n < len(p) {
				if b, err := rd.ReadByte(); err != nil || b != p[n] {
					rp.Fail(c.name, fmt.Sprintf("reading % x as %s consumes other than %d bytes", p, c.name, n))
				}
			} else if _, err := rd.ReadByte(); err == nil {
				rp.Fail(c.name, fmt.Sprintf("reading % x as %s leaves bytes", p, c.name))
			}
		}
	}
	for l := 0; l <= 2; l++ {
		for x := 0; x < 1<<uint(8*l); x++ {
			p := []byte{byte(x), byte(x >> 8)}[:l]
			try(p)
		}
	}
	for l := 3; l <= 10; l++ {
		for _, first := range []byte{0x80, 0xc0, 0x40, 0xff} {
			for _, mid := range []byte{0x80, 0xff, 0xaa} {
				for pos := 0; pos < l; pos++ {
					for x := 0; x < 256; x++ {
						p := bytes.Repeat([]byte{mid}, l)
						p[0] = first
						p[pos] = byte(x)
						try(p)
					}
				}
			}
		}
	}
}

// rangeEnds are the named limits of the types.
var rangeEnds = map[string][2]int64{
	"int8":      {ztype.MinInt8, reinterpret(ztype.MaxInt8)},
	"int16":     {ztype.MinInt16, reinterpret(ztype.MaxInt16)},
	"int32":     {ztype.MinInt32, reinterpret(ztype.MaxInt32)},
	"int64":     {ztype.MinInt64, reinterpret(ztype.MaxInt64)},
	"uint8":     {ztype.MinUint8, reinterpret(ztype.MaxUint8)},
	"uint16":    {ztype.MinUint16, reinterpret(ztype.MaxUint16)},
	"uint32":    {ztype.MinUint32, reinterpret(ztype.MaxUint32)},
	"uint64":    {ztype.MinUint64, reinterpret(ztype.MaxUint64)},
	"varint16":  {ztype.MinVarint16, reinterpret(ztype.MaxVarint16)},
	"varint32":  {ztype.MinVarint32, reinterpret(ztype.MaxVarint32)},
	"varint64":  {ztype.MinVarint64, reinterpret(ztype.MaxVarint64)},
	"varint":    {ztype.MinVarint, reinterpret(ztype.MaxVarint)},
	"varuint16": {ztype.MinVaruint16, reinterpret(ztype.MaxVaruint16)},
	"varuint32": {ztype.MinVaruint32, reinterpret(ztype.MaxVaruint32)},
	"varuint64": {ztype.MinVaruint64, reinterpret(ztype.MaxVaruint64)},
	"varuint":   {ztype.MinVaruint, reinterpret(ztype.MaxVaruint)},
	"varsize":   {ztype.MinVarsize, reinterpret(ztype.MaxVarsize)},
}

func reinterpret(v uint64) int64 { return int64(v) }

// limits: the named limits are the ends of the ranges that can be encoded.
func limits(rp *rep.R, cs []codec) {
	for _, c := range cs {
		n, ok := rangeEnds[c.name]
		if !ok {
			continue
		}
		enc := func(v int64) bool { return c.enc(&zs.Bits{}, v) == nil }
		for k, v := range n {
			rp.Count(1, 1, 1)
			end := int64(1) // what a step over the end adds
			want := "largest"
			if k == 0 {
				end, want = -1, "smallest"
			}
			bad := !enc(v)
			// beyond it there is nothing, unless that has no int64 or uint64 form
			beyond := v + end
			if c.sgn && (v == math.MaxInt64 || v == math.MinInt64) || !c.sgn && (v == -1 || v == 0) {
				bad = bad || c.sgn && (v == math.MaxInt64) != (k == 1) || !c.sgn && (v == -1) != (k == 1)
			} else {
				bad = bad || enc(beyond)
			}
			if bad {
				rp.Fail("limits of "+c.name, fmt.Sprintf("%s: %d (unsigned: %d) is named the %s value and is not", c.name, v, uint64(v), want))
			}
		}
	}
}
