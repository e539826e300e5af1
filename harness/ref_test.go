package harness

import (
	"fmt"
	"math/rand"
)

// Independent reference of the JT/T 808 frame, written from the standard.

type refHeader struct {
	ID      uint16
	Encrypt bool
	Frag    bool
	Extra   uint16 // remaining property bits (11, 12, 14, 15)
	Icc     uint64
	Serial  uint16
	Sum     uint16
	Seq     uint16
}

func refBCD(n uint64) [6]byte {
	var out [6]byte
	for i := 11; i >= 0; i-- {
		d := byte(n % 10)
		n /= 10
		if i%2 == 1 {
			out[i/2] |= d
		} else {
			out[i/2] |= d << 4
		}
	}
	return out
}

// refContent is the unescaped content without checksum.
func refContent(h refHeader, body []byte, declared int) []byte {
	prop := uint16(declared)&0x3ff | h.Extra&0xd800
	if h.Encrypt {
		prop |= 0x0400
	}
	if h.Frag {
		prop |= 0x2000
	}
	icc := refBCD(h.Icc)
	c := []byte{byte(h.ID >> 8), byte(h.ID), byte(prop >> 8), byte(prop)}
	c = append(c, icc[:]...)
	c = append(c, byte(h.Serial>>8), byte(h.Serial))
	if h.Frag {
		c = append(c, byte(h.Sum>>8), byte(h.Sum), byte(h.Seq>>8), byte(h.Seq))
	}
	return append(c, body...)
}

// refSeal appends the checksum, escapes and delimits.
func refSeal(content []byte) []byte {
	x := byte(0)
	for _, b := range content {
		x ^= b
	}
	out := []byte{0x7e}
	for _, b := range append(append([]byte{}, content...), x) {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 0x02)
		case 0x7d:
			out = append(out, 0x7d, 0x01)
		default:
			out = append(out, b)
		}
	}
	return append(out, 0x7e)
}

func refFrame(h refHeader, body []byte) []byte {
	if len(body) > 1023 {
		panic("harness: body too long for a frame")
	}
	return refSeal(refContent(h, body, len(body)))
}

type refMsg struct {
	H        refHeader
	Body     []byte
	Declared int
}

// refParse parses one frame including its delimiters.
func refParse(f []byte) (refMsg, error) {
	var m refMsg
	if len(f) < 2 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return m, fmt.Errorf("delimiters")
	}
	var c []byte
	in := f[1 : len(f)-1]
	for i := 0; i < len(in); i++ {
		if in[i] != 0x7d {
			c = append(c, in[i])
			continue
		}
		i++
		if i == len(in) {
			return m, fmt.Errorf("escape")
		}
		switch in[i] {
		case 1:
			c = append(c, 0x7d)
		case 2:
			c = append(c, 0x7e)
		default:
			return m, fmt.Errorf("escape")
		}
	}
	if len(c) < 1 {
		return m, fmt.Errorf("empty")
	}
	x := byte(0)
	for _, b := range c {
		x ^= b
	}
	if x != 0 {
		return m, fmt.Errorf("checksum")
	}
	c = c[:len(c)-1]
	if len(c) < 12 {
		return m, fmt.Errorf("short header")
	}
	prop := uint16(c[2])<<8 | uint16(c[3])
	m.H.ID = uint16(c[0])<<8 | uint16(c[1])
	m.H.Encrypt = prop&0x400 != 0
	m.H.Frag = prop&0x2000 != 0
	m.H.Extra = prop & 0xd800
	m.Declared = int(prop & 0x3ff)
	for _, b := range c[4:10] {
		hi, lo := b>>4, b&15
		if hi > 9 || lo > 9 {
			return m, fmt.Errorf("terminal number")
		}
		m.H.Icc = m.H.Icc*100 + uint64(hi)*10 + uint64(lo)
	}
	m.H.Serial = uint16(c[10])<<8 | uint16(c[11])
	c = c[12:]
	if m.H.Frag {
		if len(c) < 4 {
			return m, fmt.Errorf("short header")
		}
		m.H.Sum = uint16(c[0])<<8 | uint16(c[1])
		m.H.Seq = uint16(c[2])<<8 | uint16(c[3])
		c = c[4:]
	}
	m.Body = c
	return m, nil
}

// refSplit cuts a byte stream of back-to-back frames.
func refSplit(s []byte) (frames [][]byte, rest []byte, err error) {
	for len(s) > 0 {
		if s[0] != 0x7e {
			return frames, s, fmt.Errorf("byte %02x where a frame should start", s[0])
		}
		end := -1
		for i := 1; i < len(s); i++ {
			if s[i] == 0x7e {
				end = i
				break
			}
		}
		if end < 0 {
			return frames, s, nil
		}
		frames = append(frames, s[:end+1])
		s = s[end+1:]
	}
	return frames, nil, nil
}

// interesting values
func rIcc(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 999999999999
	case 2:
		return uint64(r.Intn(10))
	case 3: // powers of ten and neighbours
		p := uint64(1)
		for i := r.Intn(12); i > 0; i-- {
			p *= 10
		}
		return p - uint64(r.Intn(2))
	case 4:
		return 13800000000 + uint64(r.Intn(1000000))
	}
	n := uint64(0)
	for i := 1 + r.Intn(12); i > 0; i-- {
		n = n*10 + uint64(r.Intn(10))
	}
	return n
}

func rU16(r *rand.Rand) uint16 {
	s := []uint16{0, 1, 0x7d, 0x7e, 0x7d01, 0x7d02, 0x7e7e, 0x7d7d, 0x7e7d, 0xff, 0x100, 0xffff, 0x7fff, 0x8000, 0x3ff, 0x400}
	if r.Intn(3) == 0 {
		return s[r.Intn(len(s))]
	}
	return uint16(r.Intn(65536))
}

func rU32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return []uint32{0, 1, 0x7d, 0x7e, 0x7d7e7d7e, 0xffffffff, 0x80000000, 0x7fffffff, 0xffff, 0x10000}[r.Intn(10)]
	case 1:
		return uint32(r.Intn(70000))
	}
	return r.Uint32()
}

func rByte(r *rand.Rand) byte {
	if r.Intn(3) == 0 {
		return []byte{0, 1, 2, 0x7d, 0x7e, 0x7f, 0x80, 0xff}[r.Intn(8)]
	}
	return byte(r.Intn(256))
}

// rBody returns n bytes dense in delimiter and escape bytes.
func rBody(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	mode := r.Intn(5)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = []byte{0x7d, 0x7e, 0x01, 0x02, 0x00}[r.Intn(5)]
		case 2:
			b[i] = 0x7e
		case 3:
			b[i] = 0x7d
		case 4:
			b[i] = rByte(r)
		}
	}
	return b
}

func rLen(r *rand.Rand, max int) int {
	s := []int{0, 1, 2, 3, 11, 12, 13, 27, 28, 29, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1021, 1022, 1023}
	if r.Intn(3) == 0 {
		n := s[r.Intn(len(s))]
		if n <= max {
			return n
		}
	}
	return r.Intn(max + 1)
}
