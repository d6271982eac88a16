package fam

import "math/bits"

// Independent Murmur3-x64-128 mixing, for the format's "char" variant in which
// every 4 bytes of the string form one 64-bit word.

const (
	mmC1 = 0x87c37b91114253d5
	mmC2 = 0x4cf5ad432745937f
)

func mmFin(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func mmWords(seed uint64, words []uint64, full int, length uint64) (uint64, uint64) {
	h1, h2 := seed, seed
	for i := 0; i+1 < 2*full; i += 2 {
		k1 := bits.RotateLeft64(words[i]*mmC1, 31) * mmC2
		h1 ^= k1
		h1 = bits.RotateLeft64(h1, 27) + h2
		h1 = h1*5 + 0x52dce729
		k2 := bits.RotateLeft64(words[i+1]*mmC2, 33) * mmC1
		h2 ^= k2
		h2 = bits.RotateLeft64(h2, 31) + h1
		h2 = h2*5 + 0x38495ab5
	}
	k1, k2 := words[2*full], words[2*full+1]
	h2 ^= bits.RotateLeft64(k2*mmC2, 33) * mmC1
	h1 ^= bits.RotateLeft64(k1*mmC1, 31) * mmC2
	h1 ^= length
	h2 ^= length
	h1 += h2
	h2 += h1
	h1 = mmFin(h1)
	h2 = mmFin(h2)
	h1 += h2
	h2 += h1
	return h1, h2
}

// charHash is the hash of a string key in theta and tuple sketches.
func charHash(seed uint64, s string) (uint64, uint64) {
	full := len(s) / 8
	w := make([]uint64, 2*full+2)
	for i := 0; i < len(s); i++ {
		w[i/4] |= uint64(s[i]) << (8 * (i % 4))
	}
	return mmWords(seed, w, full, uint64(len(s))<<1)
}

func mix64(x uint64) uint64 { return mmFin(x + 0x9e3779b97f4a7c15) }
