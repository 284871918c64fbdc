package main

import (
	"bytes"
	"fmt"
	"reflect"

	"mc/bind"
	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
)

// The arrays of the runtime library used directly, through every exported way
// to make one: all element kinds, with and without a length in front, packed
// and not, with and without the methods that are told where elements start.

// rtArrays explores the packed or the plain arrays; with sizes, the reported
// sizes rather than the bits.
func rtArrays(rp *rep.R, packed, sizes bool) {
	a := &rtArr{rp: rp, packed: packed, sizes: sizes, max: 3, offs: []int{0, 1, 3, 7, 8, 13}}
	if rp.Thorough() {
		a.max = 4
	}
	t := ztype.ArrayTraits
	rtKind[int64](a, t.VarInt, zs.Var("varint"))
	rtKind[int16](a, t.VarInt16, zs.Var("varint16"))
	rtKind[int32](a, t.VarInt32, zs.Var("varint32"))
	rtKind[int64](a, t.VarInt64, zs.Var("varint64"))
	rtKind[uint64](a, t.VarUInt, zs.Var("varuint"))
	rtKind[uint16](a, t.VarUInt16, zs.Var("varuint16"))
	rtKind[uint32](a, t.VarUInt32, zs.Var("varuint32"))
	rtKind[uint64](a, t.VarUInt64, zs.Var("varuint64"))
	rtKind[uint64](a, t.VarSize, zs.Var("varsize"))
	rtKind[bool](a, t.Bool, zs.Bool())
	rtKind[string](a, t.String, zs.String())
	rtKind[float32](a, t.Float16, zs.F16())
	rtKind[float32](a, t.Float32, zs.F32())
	rtKind[float64](a, t.Float64, zs.F64())
	rtKind[*ztype.BytesType](a, t.Bytes, zs.Bytes())
	rtKind[*ztype.ExternType](a, t.Extern, zs.Extern())
	rtKind[uint8](a, t.UInt8, zs.UInt(8))
	rtKind[uint16](a, t.UInt16, zs.UInt(16))
	rtKind[uint32](a, t.UInt32, zs.UInt(32))
	rtKind[uint64](a, t.UInt64, zs.UInt(64))
	rtKind[int8](a, t.Int8, zs.SInt(8))
	rtKind[int16](a, t.Int16, zs.SInt(16))
	rtKind[int32](a, t.Int32, zs.SInt(32))
	rtKind[int64](a, t.Int64, zs.SInt(64))
	rtKind[uint8](a, ztype.GetBitFieldArrayTraits[uint8](5), zs.Bit(5))
	rtKind[uint16](a, ztype.GetBitFieldArrayTraits[uint16](11), zs.Bit(11))
	rtKind[uint32](a, ztype.GetBitFieldArrayTraits[uint32](31), zs.Bit(31))
	rtKind[uint64](a, ztype.GetBitFieldArrayTraits[uint64](57), zs.Bit(57))
	rtKind[int8](a, ztype.GetSignedBitFieldArrayTraits[int8](5), zs.IntN(5))
	rtKind[int16](a, ztype.GetSignedBitFieldArrayTraits[int16](11), zs.IntN(11))
	rtKind[int32](a, ztype.GetSignedBitFieldArrayTraits[int32](31), zs.IntN(31))
	rtKind[int64](a, ztype.GetSignedBitFieldArrayTraits[int64](57), zs.IntN(57))
	rp.Add("arrays_of_the_runtime_library", a.n)
}

type rtArr struct {
	rp            *rep.R
	packed, sizes bool
	max, n        int
	offs          []int
}

func rtKind[T any, Y ztype.IArrayTraits[T]](a *rtArr, traits Y, t *zs.Type) {
	dom := zs.Dom(t, &zs.Env{})
	if len(dom) > 8 && !a.rp.Thorough() {
		dom = dom[:8]
	}
	for n := 0; n <= a.max; n++ {
		ix := make([]int, n)
		for {
			vals := make([]*zs.Val, n)
			elems := make([]T, n)
			for i, k := range ix {
				vals[i] = dom[k]
				bind.SetLeaf(reflect.ValueOf(&elems[i]).Elem(), t, dom[k])
			}
			a.rp.Count(1, 0, 0)
			a.n++
			for mode := 0; mode < 4; mode++ {
				for _, off := range a.offs {
					rtOne(a, traits, t, vals, elems, mode&1 != 0, mode&2 != 0, off)
				}
			}
			i := n - 1
			for ; i >= 0; i-- {
				if ix[i]++; ix[i] < len(dom) {
					break
				}
				ix[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

func rtOne[T any, Y ztype.IArrayTraits[T]](a *rtArr, traits Y, t *zs.Type, vals []*zs.Val, elems []T, auto, offsets bool, off int) {
	name := fmt.Sprintf("runtime array of %s, packed=%v auto=%v offsets=%v", t.Text, a.packed, auto, offsets)
	fail := func(format string, x ...any) {
		s := ""
		for _, v := range vals {
			s += " " + zs.Show(t, v)
		}
		a.rp.Fail(name, fmt.Sprintf(format, x...)+fmt.Sprintf("\n%s, from bit %d, elements:%s", name, off, s))
	}
	align := 1
	if offsets {
		align = 8
	}
	want := &zs.Bits{}
	want.Put(1<<uint(off)-1, off)
	starts, err := zs.EncElems(want, t, vals, auto, a.packed, align)
	if err != nil {
		return
	}
	var called []int
	note := func(i int, pos int64) { called = append(called, i, int(pos)) }
	var opts []ztype.ArrayOption[T, Y]
	if offsets {
		opts = append(opts, ztype.WithSetOffsetMethod[T, Y](func(int, int64) {}), ztype.WithCheckOffsetMethod[T, Y](note))
	}
	size := len(elems)
	if auto {
		size = 0
	}
	told := func(when string) bool {
		ok := len(called) == 0
		if offsets {
			ok = len(called) == 2*len(starts)
			for i := 0; ok && i < len(starts); i++ {
				ok = called[2*i] == i && called[2*i+1] == starts[i]
			}
		}
		if !ok {
			fail("%s, the method for offsets gets index and position %v, the elements start at %v", when, called, starts)
		}
		called = nil
		return ok
	}
	// decoding
	s := &zs.Bits{B: append([]byte{}, want.B...)}
	s.Put(0x2d95, 14)
	rd := zstream.NewReader(bytes.NewReader(s.Bytes()))
	rd.ReadBits(uint8(off))
	var arr *ztype.Array[T, Y]
	err, pan := guard(func() (err error) {
		arr, err = ztype.ArrayFromReader(zserio.Reader(rd), traits, size, a.packed, auto, opts...)
		return
	})
	if err != nil || pan != "" {
		fail("decoding fails: %v %s", err, pan)
		return
	}
	a.rp.Count(0, 1, 1)
	if x, err := rd.ReadBits(14); err != nil || x != 0x2d95 {
		fail("decoding does not stop at the end of the array")
		return
	}
	if !told("when decoding") {
		return
	}
	if len(arr.RawArray) != len(vals) || arr.Size() != len(vals) {
		fail("decoding gives %d elements", len(arr.RawArray))
		return
	}
	for i := range vals {
		if d := bind.DiffLeaf(reflect.ValueOf(&arr.RawArray[i]).Elem(), t, vals[i], fmt.Sprint("element ", i)); d != "" {
			fail("decoding: %s", d)
			return
		}
	}
	// encoding: of what was decoded, of a clone of it, of an array made anew
	copies := []*ztype.Array[T, Y]{arr}
	if c, ok := arr.Clone().(*ztype.Array[T, Y]); ok {
		copies = append(copies, c)
	} else {
		fail("the clone is of another type")
	}
	if !offsets {
		copies = append(copies, &ztype.Array[T, Y]{ArrayTraits: traits, RawArray: elems, FixedSize: size, IsAuto: auto, IsPacked: a.packed})
	}
	for k, x := range copies {
		what := []string{"of the decoded array", "of the clone", "of a new array"}[k]
		if a.sizes {
			for i := 0; i < 2; i++ {
				var got int
				err, pan := guard(func() (err error) { got, err = x.ZserioBitSize(off); return })
				if err != nil || pan != "" || got != want.Len()-off {
					fail("the size %s is %d, the encoding has %d bits: %v %s", what, got, want.Len()-off, err, pan)
					return
				}
				a.rp.Count(0, 1, 1)
				called = nil
			}
			continue
		}
		data, end, err, pan := marshalAt(x, off)
		a.rp.Count(0, 1, 1)
		if err != nil || pan != "" {
			fail("encoding %s fails: %v %s", what, err, pan)
			return
		}
		if int(end) != want.Len() || !bytes.Equal(data, want.Bytes()) {
			fail("encoding %s: %x (%d bits), want %x (%d bits)", what, data, end, want.Bytes(), want.Len())
			return
		}
		if !told("when encoding") {
			return
		}
	}
	if a.sizes && len(elems) == 1 {
		// what the traits say about an element
		plain := &zs.Bits{}
		zs.EncLeaf(plain, t, vals[0], &zs.Env{})
		if got := traits.BitSizeOf(elems[0], off); got != plain.Len() {
			fail("the traits size the element as %d bits, it has %d", got, plain.Len())
		}
		if got := traits.InitializeOffsets(off, elems[0]); got != off+plain.Len() {
			fail("the traits say the element ends at bit %d, it ends at %d", got, off+plain.Len())
		}
		if pt := traits.PackedTraits(); t.Packable() {
			ctx, err := pt.CreateContext()
			if err != nil {
				fail("no packing context: %v", err)
				return
			}
			if err := pt.InitContext(ctx, elems[0]); err != nil {
				fail("packing context: %v", err)
				return
			}
			if got := pt.InitializeOffsets(ctx, off, elems[0]); got != off+plain.Len()+1 {
				fail("the packed traits say the element ends at bit %d, it ends at %d", got, off+plain.Len()+1)
			}
		}
	}
	a.rp.Distinct(fmt.Sprint(name, off, string(want.B)))
}
