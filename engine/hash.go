package main

import (
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"math/bits"
)

func sha256Sum(b []byte) [32]byte { return sha256.Sum256(b) }

var keccakRC = [24]uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001,
	0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
	0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
	0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008}

var keccakRot = [25]int{0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14}

func keccakF(a *[25]uint64) {
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y]^d[x], keccakRot[x+5*y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC[r]
	}
}

func keccak256(data []byte) [32]byte {
	const rate = 136
	p := append([]byte(nil), data...)
	p = append(p, 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var a [25]uint64
	for off := 0; off < len(p); off += rate {
		for i := 0; i < rate/8; i++ {
			var v uint64
			for j := 0; j < 8; j++ {
				v |= uint64(p[off+i*8+j]) << (8 * j)
			}
			a[i] ^= v
		}
		keccakF(&a)
	}
	var out [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			out[i*8+j] = byte(a[i] >> (8 * j))
		}
	}
	return out
}

// eip55 returns the 40 mixed-case hex digits of address x.
func eip55(x *big.Int) string {
	var a [20]byte
	x.FillBytes(a[:])
	s := []byte(hex.EncodeToString(a[:]))
	h := keccak256(s)
	for i := range s {
		n := h[i/2]
		if i%2 == 0 {
			n >>= 4
		}
		if n&15 > 7 && s[i] >= 'a' {
			s[i] -= 32
		}
	}
	return string(s)
}
