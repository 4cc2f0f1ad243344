package zzvspec

import "strconv"

// Crc is the checksum of cksum: the remainder, by the polynomial of ISO 8802-3, of the bytes
// followed by their number in as few bytes as possible, least significant first, complemented.
func Crc(s string) uint32 {
	var r uint32
	for i := 0; i < len(s); i++ {
		r = crcByte(r, s[i])
	}
	for n := len(s); n > 0; n >>= 8 {
		r = crcByte(r, byte(n))
	}
	return ^r
}

var remainders = table()

// table gives the remainder of every byte followed by 32 zero bits.
func table() [256]uint32 {
	var t [256]uint32
	for i := range t {
		r := uint32(i) << 24
		for k := 0; k < 8; k++ {
			top := r >> 31
			r <<= 1
			if top != 0 {
				r ^= 1<<26 | 1<<23 | 1<<22 | 1<<16 | 1<<12 | 1<<11 | 1<<10 | 1<<8 | 1<<7 | 1<<5 | 1<<4 | 1<<2 | 1<<1 | 1
			}
		}
		t[i] = r
	}
	return t
}

func crcByte(r uint32, b byte) uint32 {
	return r<<8 ^ remainders[byte(r>>24)^b]
}

// Cksum is the line cksum writes.
func Cksum(data, name string) string {
	s := strconv.FormatUint(uint64(Crc(data)), 10) + " " + strconv.Itoa(len(data))
	if name != "" {
		s += " " + name
	}
	return s + "\n"
}
