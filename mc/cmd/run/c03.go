package main

import (
	"bytes"
	"fmt"
	"io"

	"mc/rep"
	"mc/zs"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
)

func ztypeWriter(b *bytes.Buffer) zserio.Writer { return zstream.NewWriter(b) }

type wop struct {
	name  string
	do    func(w *zstream.BitWriter) error
	model func(b *zs.Bits)
	align bool
}

func wops(th bool) []wop {
	var r []wop
	bits := func(v uint64, n uint8) {
		r = append(r, wop{name: fmt.Sprintf("WriteBits(%#x,%d)", v, n),
			do:    func(w *zstream.BitWriter) error { return w.WriteBits(v, n) },
			model: func(b *zs.Bits) { b.Put(v, int(n)) }})
	}
	unsafe := func(v uint64, n uint8) {
		r = append(r, wop{name: fmt.Sprintf("WriteBitsUnsafe(%#x,%d)", v, n),
			do:    func(w *zstream.BitWriter) error { return w.WriteBitsUnsafe(v, n) },
			model: func(b *zs.Bits) { b.Put(v, int(n)) }})
	}
	byteOp := func(v byte) {
		r = append(r, wop{name: fmt.Sprintf("WriteByte(%#x)", v),
			do:    func(w *zstream.BitWriter) error { return w.WriteByte(v) },
			model: func(b *zs.Bits) { b.Put(uint64(v), 8) }})
	}
	boolOp := func(v bool) {
		r = append(r, wop{name: fmt.Sprintf("WriteBool(%v)", v),
			do: func(w *zstream.BitWriter) error { return w.WriteBool(v) },
			model: func(b *zs.Bits) {
				if v {
					b.Put(1, 1)
				} else {
					b.Put(0, 1)
				}
			}})
	}
	slice := func(p ...byte) {
		r = append(r, wop{name: fmt.Sprintf("Write(% x)", p),
			do: func(w *zstream.BitWriter) error {
				q := append([]byte{}, p...)
				n, err := w.Write(q)
				if err == nil && n != len(p) {
					return fmt.Errorf("Write returned %d of %d", n, len(p))
				}
				for i := range q {
					q[i] = 0xee // the caller may reuse its slice
				}
				return err
			},
			model: func(b *zs.Bits) {
				for _, x := range p {
					b.Put(uint64(x), 8)
				}
			}})
	}
	align := func(n uint8) {
		r = append(r, wop{name: fmt.Sprintf("Align(%d)", n), align: true,
			do: func(w *zstream.BitWriter) error {
				p, err := w.Align(n)
				if err == nil && p != w.BitPosition() {
					return fmt.Errorf("Align returned %d at position %d", p, w.BitPosition())
				}
				return err
			},
			model: func(b *zs.Bits) { b.Align(int(n)) }})
	}
	bits(0, 1)
	bits(1, 1)
	bits(0xfd, 3) // more bits than asked for
	bits(0x5, 5)
	bits(0x7f, 7)
	bits(0xa5, 8)
	bits(0x1a5, 9)
	bits(0xbeef, 16)
	bits(0xffffffff0badf00d, 33)
	bits(0x8123456789abcdef, 63)
	bits(0x8123456789abcdef, 64)
	bits(0, 0)
	unsafe(1, 2)
	unsafe(0x7f, 7)
	unsafe(0xff, 8)
	unsafe(0x155, 10)
	unsafe(0xffffffffffffffff, 64)
	byteOp(0x81)
	byteOp(0xff)
	boolOp(true)
	boolOp(false)
	slice()
	slice(0xc7)
	slice(1, 0x80, 0xff)
	align(1)
	align(8)
	align(3)
	align(16)
	align(64)
	align(200)
	if th {
		bits(0x1fffffff, 29)
		bits(0xffffffff, 32)
		bits(0x15555, 17)
		unsafe(0x1ffffff, 25)
		slice(bytes.Repeat([]byte{0x5a}, 70)...)
		align(255)
		align(32)
		align(5)
		align(128)
	}
	return r
}

func init() {
	checks["C03"] = func(rp *rep.R) {
		writers(rp)
		alignments(rp)
		readers(rp)
	}
}

func writers(rp *rep.R) {
	ops := wops(rp.Thorough())
	depth := 3
	if rp.Thorough() {
		depth = 4
	}
	each(len(ops), func(i int) {
		var seq []int
		var rec func()
		rec = func() {
			writeSeq(rp, ops, seq)
			if len(seq) == depth || rp.Out() {
				return
			}
			for j := range ops {
				seq = append(seq, j)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		seq = []int{i}
		rec()
	})
}

func names(ops []wop, seq []int) (s []string) {
	for _, i := range seq {
		s = append(s, ops[i].name)
	}
	return
}

func writeSeq(rp *rep.R, ops []wop, seq []int) {
	var buf bytes.Buffer
	w := zstream.NewWriter(&buf)
	m := &zs.Bits{}
	rp.Count(1, len(seq)+1, 1)
	for _, i := range seq {
		if err := ops[i].do(w); err != nil {
			rp.Fail("writer", fmt.Sprintf("%s fails: %v\nsequence %v", ops[i].name, err, names(ops, seq)))
			return
		}
		ops[i].model(m)
		if int(w.BitPosition()) != m.Len() {
			rp.Fail("writer", fmt.Sprintf("position %d after %s, want %d\nsequence %v", w.BitPosition(), ops[i].name, m.Len(), names(ops, seq)))
			return
		}
		if buf.Len() != m.Len()/8 {
			rp.Fail("writer", fmt.Sprintf("%d bytes passed on after %s, %d complete\nsequence %v", buf.Len(), ops[i].name, m.Len()/8, names(ops, seq)))
			return
		}
	}
	if err := w.Close(); err != nil {
		rp.Fail("writer", fmt.Sprintf("Close fails: %v\nsequence %v", err, names(ops, seq)))
		return
	}
	if !bytes.Equal(buf.Bytes(), m.Bytes()) {
		rp.Fail("writer", fmt.Sprintf("bytes differ\n got %s\nwant %s\nsequence %v", zs.FromBytes(buf.Bytes()), m, names(ops, seq)))
		return
	}
	if err := w.Close(); err != nil || buf.Len() != len(m.Bytes()) {
		rp.Fail("writer", fmt.Sprintf("second Close writes or fails: %v\nsequence %v", err, names(ops, seq)))
	}
	rp.Distinct(buf.String())
	if len(seq) == 3 && seq[0] == 2 && seq[1] == 14 {
		rp.Sample("%v -> %s", names(ops, seq), m)
	}
}

// alignments: every boundary from every start position.
func alignments(rp *rep.R) {
	limit := 3 * 256
	if rp.Thorough() {
		limit = 9 * 256
	}
	each(255, func(i int) {
		bd := uint8(i + 1)
		for pos := 0; pos < limit; pos++ {
			var buf bytes.Buffer
			w := zstream.NewWriter(&buf)
			m := &zs.Bits{}
			for k := 0; k < pos; {
				n := 61
				if pos-k < n {
					n = pos - k
				}
				w.WriteBits(0x1fffffffffffffff, uint8(n))
				m.Put(0x1fffffffffffffff, n)
				k += n
			}
			p, err := w.Align(bd)
			m.Align(int(bd))
			if err != nil || int(p) != m.Len() || int(w.BitPosition()) != m.Len() {
				rp.Fail("align writer", fmt.Sprintf("Align(%d) at %d: position %d, %d, want %d, %v", bd, pos, p, w.BitPosition(), m.Len(), err))
				continue
			}
			w.WriteBits(0x2b, 7)
			m.Put(0x2b, 7)
			w.Close()
			if !bytes.Equal(buf.Bytes(), m.Bytes()) {
				rp.Fail("align writer", fmt.Sprintf("Align(%d) at %d: bytes differ", bd, pos))
				continue
			}
			rd := zstream.NewReader(bytes.NewReader(buf.Bytes()))
			for k := 0; k < pos; {
				n := 59
				if pos-k < n {
					n = pos - k
				}
				rd.ReadBits(uint8(n))
				k += n
			}
			q, err := rd.Align(bd)
			if err != nil || int(q) != m.Len()-7 {
				rp.Fail("align reader", fmt.Sprintf("reader Align(%d) at %d: position %d, want %d, %v", bd, pos, q, m.Len()-7, err))
				continue
			}
			if x, err := rd.ReadBits(7); err != nil || x != 0x2b {
				rp.Fail("align reader", fmt.Sprintf("after reader Align(%d) at %d: %#x %v", bd, pos, x, err))
			}
			// skipped bits may be missing: then it is an error
			if pad := m.Len() - 7 - pos; pad > 0 {
				cut := zs.Bits{B: m.B[:pos]}
				rd := zstream.NewReader(bytes.NewReader(cut.Bytes()))
				for k := 0; k < pos; {
					n := 59
					if pos-k < n {
						n = pos - k
					}
					rd.ReadBits(uint8(n))
					k += n
				}
				if _, err := rd.Align(bd); err == nil && m.Len()-7 > len(cut.Bytes())*8 {
					rp.Fail("align reader", fmt.Sprintf("reader Align(%d) at %d past the end is no error", bd, pos))
				}
			}
		}
		rp.Count(limit, limit*3, limit)
	})
}

// rop returns what was read as a bit string; want is how many bits.
type rop struct {
	name string
	n    func(pos int) int
	do   func(r *zstream.BitReader) (string, error)
}

func show(v uint64, n int) string {
	b := &zs.Bits{}
	b.Put(v, n)
	return string(b.B)
}

func readers(rp *rep.R) {
	var ops []rop
	for _, n := range []int{0, 1, 2, 3, 5, 7, 8, 9, 12, 16, 24, 31, 32, 33, 40, 57, 63, 64} {
		n := n
		ops = append(ops, rop{fmt.Sprintf("ReadBits(%d)", n), func(int) int { return n }, func(r *zstream.BitReader) (string, error) {
			v, err := r.ReadBits(uint8(n))
			if n < 64 && v>>uint(n) != 0 {
				return "", fmt.Errorf("surplus bits in %#x", v)
			}
			return show(v, n), err
		}})
	}
	ops = append(ops, rop{"ReadBool", func(int) int { return 1 }, func(r *zstream.BitReader) (string, error) {
		v, err := r.ReadBool()
		if v {
			return "\x01", err
		}
		return "\x00", err
	}}, rop{"ReadByte", func(int) int { return 8 }, func(r *zstream.BitReader) (string, error) {
		v, err := r.ReadByte()
		return show(uint64(v), 8), err
	}})
	for _, n := range []int{0, 1, 2, 5} {
		n := n
		ops = append(ops, rop{fmt.Sprintf("ReadFull(%d)", n), func(int) int { return 8 * n }, func(r *zstream.BitReader) (string, error) {
			p := make([]byte, n)
			_, err := io.ReadFull(r, p)
			return string(zs.FromBytes(p).B), err
		}})
	}
	for _, n := range []int{1, 3, 8, 16, 64, 100} {
		n := n
		ops = append(ops, rop{fmt.Sprintf("Align(%d)", n), func(pos int) int { return (n - pos%n) % n }, func(r *zstream.BitReader) (string, error) {
			p, err := r.Align(uint8(n))
			if err == nil && p%int64(n) != 0 {
				return "", fmt.Errorf("Align returned %d", p)
			}
			return "align", err
		}})
	}
	datas := [][]byte{{}, {0x96}, {0x81, 0x7e, 0xa5}, {0xde, 0xad, 0xbe, 0xef, 0x01, 0x80, 0x7f, 0xff, 0x3c, 0x11}, bytes.Repeat([]byte{0xb5, 0x2d, 0x6b}, 12)}
	depth := 3
	if rp.Thorough() {
		depth = 4
	}
	each(len(ops), func(first int) {
		seq := []int{first}
		var rec func()
		rec = func() {
			for _, d := range datas {
				readSeq(rp, ops, seq, d)
			}
			if len(seq) == depth || rp.Out() {
				return
			}
			for j := range ops {
				seq = append(seq, j)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	})
}

func readSeq(rp *rep.R, ops []rop, seq []int, data []byte) {
	all := zs.FromBytes(data).B
	rd := zstream.NewReader(bytes.NewReader(data))
	pos := 0
	rp.Count(1, len(seq), 1)
	for _, i := range seq {
		o := ops[i]
		n := o.n(pos)
		got, err := o.do(rd)
		ns := func() (s []string) {
			for _, k := range seq {
				s = append(s, ops[k].name)
			}
			return
		}
		if pos+n > len(all) {
			if err == nil {
				rp.Fail("reader", fmt.Sprintf("%s at bit %d of %d is no error\ndata % x sequence %v", o.name, pos, len(all), data, ns()))
			}
			return
		}
		if err != nil {
			rp.Fail("reader", fmt.Sprintf("%s at bit %d of %d fails: %v\ndata % x sequence %v", o.name, pos, len(all), err, data, ns()))
			return
		}
		if got != "align" && got != string(all[pos:pos+n]) {
			rp.Fail("reader", fmt.Sprintf("%s at bit %d reads %v, want %v\ndata % x sequence %v", o.name, pos, []byte(got), all[pos:pos+n], data, ns()))
			return
		}
		pos += n
	}
	// what follows is undisturbed
	if pos+1 <= len(all) {
		b, err := rd.ReadBool()
		if err != nil || b != (all[pos] == 1) {
			rp.Fail("reader", fmt.Sprintf("the bit after the sequence is wrong (%v)\ndata % x", err, data))
		}
	}
}
