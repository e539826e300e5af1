package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"unicode/utf8"

	"gitee.com/coco/go808/protocol"
	"golang.org/x/text/encoding/simplifiedchinese"
)

func TestC23(t *testing.T) {
	for i := 0; i < scale(60000, 1500000)/shards && !rec.Enough(); i++ {
		paramHistory(newRand("C23", i), i)
	}
	paramRunes()
	bits8()
	bits16()
	bits32()
	attributes()
	property()
}

// paramHistory sets a parameter again and again and reads it in every form.
func paramHistory(r *rand.Rand, i int) {
	p := new(protocol.Param)
	n := 1 + r.Intn(4)
	for k := 0; k < n; k++ {
		id := rU32(r)
		var want []byte // the serialised value
		var text *string
		what := ""
		var ret *protocol.Param
		var given []byte
		switch r.Intn(5) {
		case 0:
			v := rByte(r)
			ret = p.SetByte(id, v)
			want, what = []byte{v}, fmt.Sprintf("byte %d", v)
		case 1:
			v := rU16(r)
			ret = p.SetUint16(id, v)
			want, what = u16b(v), fmt.Sprintf("uint16 %d", v)
		case 2:
			v := rU32(r)
			ret = p.SetUint32(id, v)
			want, what = u32b(v), fmt.Sprintf("uint32 %d", v)
		case 3:
			v := rBody(r, []int{0, 1, 2, 3, 4, 5, 8, 255, r.Intn(300)}[r.Intn(9)])
			if r.Intn(10) == 0 {
				v = nil
			}
			want, what = append([]byte{}, v...), fmt.Sprintf("%d bytes", len(v))
			given = v
			ret = p.SetBytes(id, v)
		case 4:
			s := paramText(r)
			ret = p.SetString(id, s)
			want, _ = simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
			text, what = &s, fmt.Sprintf("text %q", s)
		}
		d := fmt.Sprintf("history %d: parameter 0x%x set to %s", i, id, what)
		rec.Case(fmt.Sprintf("%d/%s", id, what))
		if ret != p {
			rec.Violate("chain", "%s: the setter does not return the parameter", d)
		}
		for j := range given {
			given[j] ^= 0xff // the caller uses its buffer for something else
		}
		if p.ID() != id {
			rec.Violate("id", "%s: its id is 0x%x", d, p.ID())
		}
		for round := 0; round < 2; round++ {
			b, err := p.GetBytes()
			if err != nil || !bytes.Equal(b, want) {
				rec.Violate("bytes", "%s: reads as bytes %s (%v), should be %s", d, hx(b), err, hx(want))
			}
			for j := range b {
				b[j] ^= 0xff
			}
			if len(b) > 0 {
				_ = append(b[:0], 0x11)
			}
			v1, e1 := p.GetByte()
			if (e1 != nil) != (len(want) < 1) || e1 == nil && v1 != want[0] {
				rec.Violate("byte", "%s (%d bytes): reads as byte %d, %v", d, len(want), v1, e1)
			}
			v2, e2 := p.GetUint16()
			if len(want) < 2 && e2 == nil {
				rec.Violate("uint16", "%s (%d bytes): reads as uint16 %d", d, len(want), v2)
			}
			if len(want) == 2 && (e2 != nil || !bytes.Equal(u16b(v2), want)) {
				rec.Violate("uint16", "%s: reads as uint16 %d, %v", d, v2, e2)
			}
			v4, e4 := p.GetUint32()
			if len(want) < 4 && e4 == nil {
				rec.Violate("uint32", "%s (%d bytes): reads as uint32 %d", d, len(want), v4)
			}
			if len(want) == 4 && (e4 != nil || !bytes.Equal(u32b(v4), want)) {
				rec.Violate("uint32", "%s: reads as uint32 %d, %v", d, v4, e4)
			}
			if text != nil {
				s, err := p.GetString()
				if err != nil || s != *text {
					rec.Violate("text", "%s: reads as text %q, %v", d, s, err)
				}
			} else {
				trySafeText(p, d)
			}
			rec.Count("reads", 5)
		}
		// through a message
		if len(want) <= 255 && r.Intn(3) == 0 {
			for _, e := range []protocol.Entity{&protocol.T808_0x8103{Params: []*protocol.Param{p}}, &protocol.T808_0x0104{ReplyMsgSerialNo: 1, Params: []*protocol.Param{p}}} {
				m := protocol.Message{Header: protocol.Header{IccID: 1}, Body: e}
				f, err := m.Encode()
				if err != nil {
					rec.Violate("encode", "%s: %v", d, err)
					continue
				}
				var back protocol.Message
				if err := back.Decode(f); err != nil || back.Body == nil {
					rec.Violate("decode", "%s: %v", d, err)
					continue
				}
				for j := range f {
					f[j] = 0xaa
				}
				var ps []*protocol.Param
				switch b := back.Body.(type) {
				case *protocol.T808_0x8103:
					ps = b.Params
				case *protocol.T808_0x0104:
					ps = b.Params
				}
				if len(ps) != 1 || ps[0].ID() != id {
					rec.Violate("decode", "%s: decoded as %d parameters", d, len(ps))
					continue
				}
				if b, err := ps[0].GetBytes(); err != nil || !bytes.Equal(b, want) {
					rec.Violate("decode", "%s: decoded as %s, %v", d, hx(b), err)
				}
				if text != nil {
					if s, err := ps[0].GetString(); err != nil || s != *text {
						rec.Violate("decode", "%s: decoded as text %q, %v", d, s, err)
					}
				}
				rec.Count("through_messages", 1)
			}
		}
	}
	if i < 3 {
		rec.Sample("history %d of %d settings", i, n)
	}
}

func trySafeText(p *protocol.Param, d string) {
	if e, _ := trySafe(func() { p.GetString() }); e != nil {
		rec.Violate("panic", "%s: reading it as text panics: %v", d, e)
	}
}

func paramText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.Intn(20); n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			b.WriteByte(byte(r.Intn(128)))
		case 1:
			b.WriteRune(rune(0x4e00 + r.Intn(0x5000)))
		case 2:
			b.WriteRune(rune(0x10000 + r.Intn(0x10000)))
		case 3:
			b.WriteString([]string{"京A12345", "测试", "é", "€", "\x00", "　", "🚚"}[r.Intn(7)])
		}
	}
	s := b.String()
	if !gbSafe(s) {
		return "粤B"
	}
	return s
}

// gbSafe: the encoding itself represents the text.
func gbSafe(s string) bool {
	e, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		return false
	}
	d, err := simplifiedchinese.GB18030.NewDecoder().Bytes(e)
	return err == nil && string(d) == s
}

// paramRunes: every character the encoding has.
func paramRunes() {
	p := new(protocol.Param)
	for c := rune(shard); c <= 0x10ffff; c += rune(shards) {
		if !utf8.ValidRune(c) || !thorough && c > 0x30000 && c%64 != rune(shard) {
			continue
		}
		s := "a" + string(c)
		if !gbSafe(s) {
			rec.Count("not_in_GB18030", 1)
			continue
		}
		p.SetString(1, s)
		got, err := p.GetString()
		rec.Count("characters", 1)
		if err != nil || got != s {
			rec.Violate("text", "character U+%04X set as text reads as %q, %v", c, got, err)
		}
	}
}

func bits8() {
	if shard != 0 {
		return
	}
	for v := 0; v < 256; v++ {
		for o := 0; o < 8; o++ {
			if protocol.GetBitByte(byte(v), o) != (v>>o&1 == 1) {
				rec.Violate("get", "bit %d of byte %02x reads as %v", o, v, !(v>>o&1 == 1))
			}
			for _, set := range []bool{true, false} {
				x := byte(v)
				protocol.SetBitByte(&x, o, set)
				w := byte(v) &^ (1 << o)
				if set {
					w |= 1 << o
				}
				if x != w {
					rec.Violate("set", "bit %d of byte %02x set to %v gives %02x", o, v, set, x)
				}
				rec.Case(fmt.Sprintf("b/%d/%d/%v", v, o, set))
			}
		}
		for _, o := range []int{8, 9, 15, 16, 31, 32, 33, 64, 1000} {
			x := byte(v)
			if protocol.GetBitByte(x, o) {
				rec.Violate("get", "bit %d of byte %02x is set", o, v)
			}
			protocol.SetBitByte(&x, o, true)
			protocol.SetBitByte(&x, o, false)
			if x != byte(v) {
				rec.Violate("set", "setting bit %d of byte %02x gives %02x", o, v, x)
			}
		}
	}
}

func bits16() {
	for v := shard; v < 65536; v += shards {
		for o := 0; o < 16; o++ {
			if protocol.GetBitUint16(uint16(v), o) != (v>>o&1 == 1) {
				rec.Violate("get", "bit %d of %04x reads as %v", o, v, !(v>>o&1 == 1))
			}
			for _, set := range []bool{true, false} {
				x := uint16(v)
				protocol.SetBitUint16(&x, o, set)
				w := uint16(v) &^ (1 << o)
				if set {
					w |= 1 << o
				}
				if x != w {
					rec.Violate("set", "bit %d of %04x set to %v gives %04x", o, v, set, x)
				}
			}
		}
		rec.Case(fmt.Sprintf("h/%d", v))
		for _, o := range []int{16, 17, 31, 32, 33, 64, 1000} {
			x := uint16(v)
			protocol.SetBitUint16(&x, o, true)
			protocol.SetBitUint16(&x, o, false)
			if x != uint16(v) || protocol.GetBitUint16(x, o) {
				rec.Violate("set", "setting bit %d of %04x gives %04x", o, v, x)
			}
		}
	}
	rec.Count("uint16_values", int64(65536/shards))
}

func bits32() {
	r := newRand("C23bits", 0)
	for i := 0; i < scale(20000, 400000); i++ {
		v := r.Uint32()
		switch r.Intn(6) {
		case 0:
			v = 1 << r.Intn(32)
		case 1:
			v = ^uint32(1 << r.Intn(32))
		case 2:
			v = []uint32{0, ^uint32(0), 0x80000000, 0x7fffffff}[r.Intn(4)]
		}
		for o := 0; o < 32; o++ {
			if protocol.GetBitUint32(v, o) != (v>>o&1 == 1) {
				rec.Violate("get", "bit %d of %08x reads as %v", o, v, !(v>>o&1 == 1))
			}
			for _, set := range []bool{true, false} {
				x := v
				protocol.SetBitUint32(&x, o, set)
				w := v &^ (1 << o)
				if set {
					w |= 1 << o
				}
				if x != w {
					rec.Violate("set", "bit %d of %08x set to %v gives %08x", o, v, set, x)
				}
			}
		}
		for _, o := range []int{32, 33, 64, 1000} {
			x := v
			protocol.SetBitUint32(&x, o, true)
			protocol.SetBitUint32(&x, o, false)
			if x != v || protocol.GetBitUint32(x, o) {
				rec.Violate("set", "setting bit %d of %08x gives %08x", o, v, x)
			}
		}
		rec.Case(fmt.Sprintf("w/%d", v))
	}
}

// attributes: the named flags are the bits of the standard.
func attributes() {
	r := newRand("C23attr", 0)
	one := func(name string, bit int, before, after uint64, set bool) {
		w := before &^ (1 << bit)
		if set {
			w |= 1 << bit
		}
		rec.Case(fmt.Sprintf("%s/%d/%v", name, before, set))
		if after != w {
			rec.Violate("flag", "%s(%v) on %x gives %x, should be %x", name, set, before, after, w)
		}
	}
	is := func(name string, bit int, v uint64, got bool) {
		rec.Count("flags_read", 1)
		if got != (v>>bit&1 == 1) {
			rec.Violate("flag", "%s of %x is %v", name, v, got)
		}
	}
	for i := 0; i < 65536; i++ {
		if i%shards != shard {
			continue
		}
		for _, set := range []bool{true, false} {
			v := r.Uint32()
			s := protocol.T808_0x0200_Status(v)
			s.SetSouthLatitude(set)
			one("status south latitude", 2, uint64(v), uint64(s), set)
			s = protocol.T808_0x0200_Status(v)
			s.SetWestLongitude(set)
			one("status west longitude", 3, uint64(v), uint64(s), set)
			is("status ACC", 0, uint64(s), s.GetAccState())
			is("status positioning", 1, uint64(s), s.Positioning())
			is("status south", 2, uint64(s), s.GetLatitudeType() == protocol.SouthLatitudeType)
			is("status west", 3, uint64(s), s.GetLongitudeType() == protocol.WestLongitudeType)

			h := uint16(i)
			for _, f := range []struct {
				name string
				bit  int
				set  func(*protocol.AreaAttribute, bool)
			}{
				{"area enter alarm", 3, (*protocol.AreaAttribute).SetEnterAlarm},
				{"area exit alarm", 5, (*protocol.AreaAttribute).SetExitAlarm},
				{"area south latitude", 6, (*protocol.AreaAttribute).SetSouthLatitude},
				{"area west longitude", 7, (*protocol.AreaAttribute).SetWestLongitude},
			} {
				a := protocol.AreaAttribute(h)
				f.set(&a, set)
				one(f.name, f.bit, uint64(h), uint64(a), set)
				is("area south", 6, uint64(a), a.GetLatitudeType() == protocol.SouthLatitudeType)
				is("area west", 7, uint64(a), a.GetLongitudeType() == protocol.WestLongitudeType)
			}
			if i >= 256 {
				continue
			}
			b := byte(i)
			for _, f := range []struct {
				name string
				bit  int
				set  func(*protocol.T808_0x8606_SectionAttribute, bool)
			}{
				{"section time limit", 0, (*protocol.T808_0x8606_SectionAttribute).SetTimeLimit},
				{"section speed limit", 1, (*protocol.T808_0x8606_SectionAttribute).SetSpeedLimit},
				{"section south latitude", 2, (*protocol.T808_0x8606_SectionAttribute).SetSouthLatitude},
				{"section west longitude", 3, (*protocol.T808_0x8606_SectionAttribute).SetWestLongitude},
			} {
				a := protocol.T808_0x8606_SectionAttribute(b)
				f.set(&a, set)
				one(f.name, f.bit, uint64(b), uint64(a), set)
				is("section time limit", 0, uint64(a), a.HasTimeLimit())
				is("section speed limit", 1, uint64(a), a.HasSpeedLimit())
				is("section south", 2, uint64(a), a.GetLatitudeType() == protocol.SouthLatitudeType)
				is("section west", 3, uint64(a), a.GetLongitudeType() == protocol.WestLongitudeType)
			}
			l := protocol.T808_0x8500_Flag(b)
			l.SetLock(set)
			one("door lock", 0, uint64(b), uint64(l), set)
		}
	}
}

// property: the body size does not touch the other bits of the header property.
func property() {
	r := newRand("C23prop", 0)
	for v := shard; v < 65536; v += shards {
		p := protocol.Property(v)
		if p.GetBodySize() != uint16(v&0x3ff) || p.IsEnablePacket() != (v&0x2000 != 0) || p.IsEnableEncrypt() != (v&0x400 != 0) {
			rec.Violate("property", "property %04x reads as size %d, fragment %v, encrypted %v", v, p.GetBodySize(), p.IsEnablePacket(), p.IsEnableEncrypt())
		}
		for _, size := range []int{0, 1, 0x3ff, 0x3fe, 0x200, 0x400, 0x401, 0x7ff, 0x800, 0xffff, 0xfc00, r.Intn(1024), r.Intn(65536)} {
			p := protocol.Property(v)
			err := p.SetBodySize(uint16(size))
			rec.Count("sizes_set", 1)
			if size > 0x3ff {
				if err == nil || int(p) != v {
					rec.Violate("property-size", "property %04x: size %d gives %v and %04x", v, size, err, uint16(p))
				}
				continue
			}
			if err != nil || int(p) != v&^0x3ff|size {
				rec.Violate("property-size", "property %04x: size %d gives %v and %04x", v, size, err, uint16(p))
			}
		}
		rec.Case(fmt.Sprintf("p/%d", v))
	}
}
