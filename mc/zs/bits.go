// Package zs holds the reference model: zserio schemas, values and the zserio
// bit format, written from the format's definition and independent of go-zserio.
package zs

import "fmt"

// Bits is an append-only bit string, one byte per bit: slow and obvious.
type Bits struct{ B []byte }

func (b *Bits) Len() int { return len(b.B) }

// Put appends the n low bits of v, most significant first.
func (b *Bits) Put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		b.B = append(b.B, byte(v>>uint(i))&1)
	}
}

// Align pads with zeros to a multiple of n bits from the start.
func (b *Bits) Align(n int) {
	for n > 0 && len(b.B)%n != 0 {
		b.B = append(b.B, 0)
	}
}

// Bytes packs the bits into bytes, zero padded.
func (b *Bits) Bytes() []byte {
	out := make([]byte, (len(b.B)+7)/8)
	for i, x := range b.B {
		out[i/8] |= x << uint(7-i%8)
	}
	return out
}

func FromBytes(p []byte) *Bits {
	b := &Bits{}
	for _, x := range p {
		b.Put(uint64(x), 8)
	}
	return b
}

func (b *Bits) String() string {
	s := make([]byte, 0, len(b.B)+len(b.B)/8)
	for i, x := range b.B {
		if i > 0 && i%8 == 0 {
			s = append(s, ' ')
		}
		s = append(s, '0'+x)
	}
	return string(s)
}

func Equal(a, b *Bits) bool { return string(a.B) == string(b.B) }

var _ = fmt.Sprintf
