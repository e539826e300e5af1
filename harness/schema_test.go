package harness

import (
	"bytes"
	"compress/gzip"
	"crypto/rsa"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
	"golang.org/x/text/encoding/simplifiedchinese"
)

// Independent description of the body layouts: each generator builds a message
// and, separately, the bytes the standard prescribes for it.

type gen struct {
	r     *rand.Rand
	small bool // keep lists and texts short
}

type schema struct {
	id    uint16
	fresh func() protocol.Entity
	gen   func(g *gen) (protocol.Entity, []byte)
	// loose: the encoding is not unique (compression); the exact-bytes comparison is replaced
	loose func(enc []byte, e protocol.Entity) string
}

// wb builds reference bytes.
type wb struct{ b []byte }

func (w *wb) u8(v byte)    { w.b = append(w.b, v) }
func (w *wb) u16(v uint16) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *wb) u32(v uint32) { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (w *wb) raw(b []byte) { w.b = append(w.b, b...) }
func (w *wb) fix(s string, n int) {
	f := make([]byte, n)
	copy(f, s)
	w.raw(f)
}
func bcd2(n int) byte { return byte(n/10%10)<<4 | byte(n%10) }
func (w *wb) time(t time.Time) {
	t = t.In(time.Local)
	b := []byte{bcd2(t.Year() % 100), bcd2(int(t.Month())), bcd2(t.Day()), bcd2(t.Hour()), bcd2(t.Minute()), bcd2(t.Second())}
	if spoil.hit("time") {
		switch r := spoil.r; r.Intn(7) {
		case 0: // not decimal
			b[r.Intn(6)] = byte(0xa0 + r.Intn(0x60))
		case 1:
			b[r.Intn(6)] |= byte(10 + r.Intn(6))
			for b[0]&15 <= 9 && b[1]&15 <= 9 && b[2]&15 <= 9 && b[3]&15 <= 9 && b[4]&15 <= 9 && b[5]&15 <= 9 {
				b[r.Intn(6)] |= 15
			}
		case 2: // month
			b[1] = []byte{0x00, 0x13, 0x20, 0x99}[r.Intn(4)]
		case 3: // day
			b[2] = []byte{0x00, 0x32, 0x40, 0x99}[r.Intn(4)]
		case 4:
			b[1], b[2] = 0x02, 0x30
			if r.Intn(2) == 0 && t.Year()%4 != 0 {
				b[2] = 0x29
			} else if r.Intn(2) == 0 {
				b[1], b[2] = []byte{0x04, 0x06, 0x09, 0x11, 0x02}[r.Intn(5)], 0x31
			}
		case 5:
			b[3] = []byte{0x24, 0x25, 0x30, 0x99}[r.Intn(4)]
		case 6:
			b[4+r.Intn(2)] = []byte{0x60, 0x61, 0x70, 0x99}[r.Intn(4)]
		}
	}
	w.raw(b)
}

// spoil makes one place of the next generated body invalid: the at-th of its
// times, or the at-th of its location extras.
type spoiler struct {
	kind  string
	at, n int
	r     *rand.Rand
}

var spoil *spoiler

func (s *spoiler) hit(kind string) bool {
	if s == nil || s.kind != kind {
		return false
	}
	s.n++
	return s.n-1 == s.at
}
func (w *wb) gb(s string) { w.raw(gbk(s)) }
func (w *wb) gb8(s string) {
	b := gbk(s)
	w.u8(byte(len(b)))
	w.raw(b)
}
func (w *wb) gb16(s string) {
	b := gbk(s)
	w.u16(uint16(len(b)))
	w.raw(b)
}

func gbk(s string) []byte {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

// ---- field generators

func (g *gen) n(max int) int {
	if g.small && max > 3 {
		max = 3
	}
	switch g.r.Intn(5) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return 1 % (max + 1)
	}
	return g.r.Intn(max + 1)
}

var cjk = []rune("京沪粤苏浙皖闽赣鲁豫鄂湘琼川贵云陕甘青蒙桂宁新藏港澳测试车牌紧急报警区域路线服务电话联系人驾驶员公司名称升级版本")

func (g *gen) rune() rune {
	r := g.r
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		return rune(0x20 + r.Intn(0x5f))
	case 4, 5, 6:
		return cjk[r.Intn(len(cjk))]
	case 7:
		return rune(0x4e00 + r.Intn(0x51a5))
	case 8:
		return []rune{0x7d, 0x7e, 0x01, 0x02, 0x7f, 0xa0, 0x3000, 0x20ac, 0xe9, 0x430}[r.Intn(10)]
	}
	return []rune{0x1f600, 0x20000, 0x10ffff, 0x1d11e, 0x0e01, 0x05d0, 0x3042}[r.Intn(7)]
}

func okText(s string) bool {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	if err != nil {
		return false
	}
	d, err := simplifiedchinese.GB18030.NewDecoder().Bytes(b)
	return err == nil && string(d) == s
}

var badRune sync.Map // rune: cannot be told from another in GB18030

// text returns a text whose GB18030 form has at most max bytes.
func (g *gen) text(max int) string {
	want := g.n(max)
	if g.r.Intn(3) > 0 && want > 30 {
		want = g.r.Intn(30)
	}
	var sb strings.Builder
	n := 0
	for tries := 0; n < want && tries < 2000; tries++ {
		c := g.rune()
		bad, seen := badRune.Load(c)
		if !seen {
			bad = !okText(string(c))
			badRune.Store(c, bad)
		}
		if bad.(bool) {
			continue
		}
		k := len(gbk(string(c)))
		if n+k > want {
			c, k = 'x', 1
		}
		sb.WriteRune(c)
		n += k
	}
	return sb.String()
}

// ascii returns up to max printable bytes (fixed-width fields carry raw bytes).
func (g *gen) ascii(max int) string {
	b := make([]byte, g.n(max))
	for i := range b {
		if g.r.Intn(8) == 0 {
			b[i] = byte(1 + g.r.Intn(255))
		} else {
			b[i] = byte(0x21 + g.r.Intn(0x5e))
		}
	}
	return string(b)
}

func (g *gen) bytes(max int) []byte {
	n := g.n(max)
	if g.r.Intn(3) > 0 && n > 60 {
		n = g.r.Intn(60)
	}
	return rBody(g.r, n)
}

func (g *gen) time() time.Time {
	r := g.r
	y := 2000 + r.Intn(100)
	if r.Intn(3) == 0 {
		y = []int{2000, 2001, 2008, 2009, 2010, 2019, 2020, 2099, 2038, 2069, 2070}[r.Intn(11)]
	}
	t := time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.Local)
	switch r.Intn(8) {
	case 0:
		t = time.Date(y, 1, 1, 0, 0, 0, 0, time.Local)
	case 1:
		t = time.Date(y, 12, 31, 23, 59, 59, 0, time.Local)
	case 2:
		t = time.Date(2000+4*r.Intn(25), 2, 29, r.Intn(24), 0, 0, 0, time.Local)
	case 4: // the last day of a month
		t = time.Date(y, time.Month(2+r.Intn(11)), 0, r.Intn(24), r.Intn(60), r.Intn(60), 0, time.Local)
	case 3:
		t = t.In(time.FixedZone("x", 3600*(r.Intn(25)-12)))
		if l := t.In(time.Local).Year(); l < 2000 || l > 2099 {
			t = time.Date(2050, 6, 1, 1, 2, 3, 0, time.Local)
		}
	}
	return t
}

// micro returns micro-degrees in [-lim, lim].
func (g *gen) micro(lim int64) int64 {
	r := g.r
	v := r.Int63n(2*lim+1) - lim
	switch r.Intn(8) {
	case 0:
		v = []int64{0, 1, -1, lim, -lim, 999999, 1000000, -999999, -1000000, 10, -10}[r.Intn(11)]
	case 1:
		v = v / 1000000 * 1000000
	case 2:
		v = v / 1000 * 1000
	}
	return v
}

// deg is the same value in one of its decimal representations.
func (g *gen) deg(v int64) decimal.Decimal {
	d := decimal.New(v, -6)
	switch g.r.Intn(4) {
	case 0:
		x, _ := decimal.NewFromString(d.String())
		return x
	case 1:
		return decimal.New(v*10, -7)
	case 2:
		if v%1000000 == 0 {
			return decimal.New(v/1000000, 0)
		}
	}
	return d
}

func abs(v int64) uint32 {
	if v < 0 {
		return uint32(-v)
	}
	return uint32(v)
}

func sgn(r *rand.Rand, v int64, neg bool) int64 {
	if v < 0 {
		v = -v
	}
	if neg {
		return -v
	}
	return v
}

// ---- location and extras

type extraKind struct {
	id  byte
	gen func(g *gen) (extra.Entity, []byte)
}

var extraKinds = []extraKind{
	{0x01, func(g *gen) (extra.Entity, []byte) {
		v := rU32(g.r)
		w := wb{}
		w.u32(v)
		return extra.NewExtra_0x01(v), w.b
	}},
	{0x02, func(g *gen) (extra.Entity, []byte) {
		v := rU16(g.r)
		w := wb{}
		w.u16(v)
		return extra.NewExtra_0x02(v), w.b
	}},
	{0x03, func(g *gen) (extra.Entity, []byte) {
		v := rU16(g.r)
		w := wb{}
		w.u16(v)
		return extra.NewExtra_0x03(v), w.b
	}},
	{0x04, func(g *gen) (extra.Entity, []byte) {
		v := rU16(g.r)
		w := wb{}
		w.u16(v)
		return extra.NewExtra_0x04(v), w.b
	}},
	{0x11, func(g *gen) (extra.Entity, []byte) {
		w := wb{}
		t := rByte(g.r)
		if g.r.Intn(2) == 0 {
			t %= 5
		}
		v := extra.Extra_0x11_Value{Type: t}
		w.u8(t)
		if t != 0 {
			a := rU32(g.r)
			v.AreaID = &a
			w.u32(a)
		}
		return extra.NewExtra_0x11(v), w.b
	}},
	{0x12, func(g *gen) (extra.Entity, []byte) {
		v := extra.Extra_0x12_Value{Type: rByte(g.r), AreaID: rU32(g.r), Direction: rByte(g.r)}
		w := wb{}
		w.u8(v.Type)
		w.u32(v.AreaID)
		w.u8(v.Direction)
		return extra.NewExtra_0x12(v), w.b
	}},
	{0x13, func(g *gen) (extra.Entity, []byte) {
		v := extra.Extra_0x13_Value{RoadID: rU32(g.r), Duration: rU16(g.r), Result: rByte(g.r)}
		w := wb{}
		w.u32(v.RoadID)
		w.u16(v.Duration)
		w.u8(v.Result)
		return extra.NewExtra_0x13(v), w.b
	}},
	{0x25, func(g *gen) (extra.Entity, []byte) {
		v := rU32(g.r)
		w := wb{}
		w.u32(v)
		return extra.NewExtra_0x25(v), w.b
	}},
	{0x2a, func(g *gen) (extra.Entity, []byte) {
		v := rU16(g.r)
		w := wb{}
		w.u16(v)
		return extra.NewExtra_0x2A(v), w.b
	}},
	{0x2b, func(g *gen) (extra.Entity, []byte) {
		v := rU32(g.r)
		w := wb{}
		w.u32(v)
		return extra.NewExtra_0x2B(v), w.b
	}},
	{0x30, func(g *gen) (extra.Entity, []byte) { v := rByte(g.r); return extra.NewExtra_0x30(v), []byte{v} }},
	{0x31, func(g *gen) (extra.Entity, []byte) { v := rByte(g.r); return extra.NewExtra_0x31(v), []byte{v} }},
}

func (g *gen) location(w *wb, extras bool) protocol.T808_0x0200 {
	var e protocol.T808_0x0200
	e.Alarm = rU32(g.r)
	w.u32(e.Alarm)
	lat, lng := g.micro(90000000), g.micro(180000000)
	st := rU32(g.r) &^ 0xc
	if lat < 0 {
		st |= 4
	}
	if lng < 0 {
		st |= 8
	}
	e.Status = protocol.T808_0x0200_Status(st)
	w.u32(st)
	e.Lat, e.Lng = g.deg(lat), g.deg(lng)
	w.u32(abs(lat))
	w.u32(abs(lng))
	e.Altitude, e.Speed, e.Direction = rU16(g.r), rU16(g.r), rU16(g.r)
	w.u16(e.Altitude)
	w.u16(e.Speed)
	w.u16(e.Direction)
	e.Time = g.time()
	w.time(e.Time)
	if extras {
		for i := g.n(6); i > 0; i-- {
			k := extraKinds[g.r.Intn(len(extraKinds))]
			x, b := k.gen(g)
			e.Extras = append(e.Extras, x)
			if spoil.hit("extra") { // a size the kind does not have
				if spoil.r.Intn(2) == 0 {
					b = b[:spoil.r.Intn(len(b))]
				} else {
					b = append(append([]byte{}, b...), randBytes(spoil.r, 1+spoil.r.Intn(5))...)
				}
			}
			w.u8(k.id)
			w.u8(byte(len(b)))
			w.raw(b)
		}
	}
	return e
}

func (g *gen) params(w *wb) []*protocol.Param {
	n := g.n(12)
	if !g.small && g.r.Intn(20) == 0 {
		n = 100 + g.r.Intn(100)
	}
	w.u8(byte(n))
	var out []*protocol.Param
	total := 0
	for i := 0; i < n; i++ {
		id := rU32(g.r)
		p := new(protocol.Param)
		var b []byte
		switch g.r.Intn(5) {
		case 0:
			v := rByte(g.r)
			p.SetByte(id, v)
			b = []byte{v}
		case 1:
			v := rU16(g.r)
			p.SetUint16(id, v)
			b = []byte{byte(v >> 8), byte(v)}
		case 2:
			v := rU32(g.r)
			p.SetUint32(id, v)
			x := wb{}
			x.u32(v)
			b = x.b
		case 3:
			b = g.bytes(255)
			if total+len(b) > 800 {
				b = b[:0]
			}
			p.SetBytes(id, b)
		case 4:
			s := g.text(100)
			if total > 700 {
				s = ""
			}
			b = gbk(s)
			p.SetString(id, s)
		}
		total += len(b)
		w.u32(id)
		w.u8(byte(len(b)))
		w.raw(b)
		out = append(out, p)
	}
	return out
}

func (g *gen) u32s(w *wb, max int, cnt func(int)) []uint32 {
	n := g.n(max)
	cnt(n)
	var out []uint32
	for i := 0; i < n; i++ {
		v := rU32(g.r)
		out = append(out, v)
		w.u32(v)
	}
	return out
}

func (g *gen) u16s(w *wb, n int) []uint16 {
	var out []uint16
	for i := 0; i < n; i++ {
		v := rU16(g.r)
		out = append(out, v)
		w.u16(v)
	}
	return out
}

func (g *gen) key() *rsa.PublicKey {
	b := randBytes(g.r, 128)
	switch g.r.Intn(3) {
	case 0:
		b[0] |= 0x80
	case 1:
		b[0] = 1
	default:
		b[0] |= 1
	}
	e := int(g.r.Int31())
	if g.r.Intn(2) == 0 {
		e = []int{3, 65537, 0x7d7e, 1<<31 - 1}[g.r.Intn(4)]
	}
	return &rsa.PublicKey{N: new(big.Int).SetBytes(b), E: e}
}

func simple(id uint16, fresh func() protocol.Entity, f func(g *gen, w *wb) protocol.Entity) schema {
	return schema{id: id, fresh: fresh, gen: func(g *gen) (protocol.Entity, []byte) {
		w := &wb{}
		e := f(g, w)
		if w.b == nil {
			w.b = []byte{}
		}
		return e, w.b
	}}
}

// areaTail writes the optional period part of an area.
func (g *gen) areaTail(w *wb, attr uint16) (st, en time.Time, sp uint16, du byte) {
	if attr&1 == 0 {
		return
	}
	st, en, sp, du = g.time(), g.time(), rU16(g.r), rByte(g.r)
	w.time(st)
	w.time(en)
	w.u16(sp)
	w.u8(du)
	return
}

var schemas []schema

func init() {
	P := func(s schema) { schemas = append(schemas, s) }
	P(simple(0x0001, func() protocol.Entity { return new(protocol.T808_0x0001) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0001{ReplyMsgSerialNo: rU16(g.r), ReplyMsgID: rU16(g.r), Result: protocol.Result(rByte(g.r))}
		w.u16(e.ReplyMsgSerialNo)
		w.u16(e.ReplyMsgID)
		w.u8(byte(e.Result))
		return e
	}))
	empty := func(id uint16, f func() protocol.Entity) {
		P(simple(id, f, func(g *gen, w *wb) protocol.Entity { return f() }))
	}
	empty(0x0002, func() protocol.Entity { return new(protocol.T808_0x0002) })
	empty(0x0003, func() protocol.Entity { return new(protocol.T808_0x0003) })
	P(simple(0x0100, func() protocol.Entity { return new(protocol.T808_0x0100) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0100{ProvinceID: rU16(g.r), CityID: rU16(g.r), ManufactureID: g.ascii(5), Model: g.ascii(20),
			TerminalID: g.ascii(7), PlateColor: rByte(g.r), LicenseNo: g.text(40)}
		w.u16(e.ProvinceID)
		w.u16(e.CityID)
		w.fix(e.ManufactureID, 5)
		w.fix(e.Model, 20)
		w.fix(e.TerminalID, 7)
		w.u8(e.PlateColor)
		w.gb(e.LicenseNo)
		return e
	}))
	P(simple(0x0102, func() protocol.Entity { return new(protocol.T808_0x0102) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0102{AuthKey: g.text(300) + "k"}
		w.gb(e.AuthKey)
		return e
	}))
	P(simple(0x0104, func() protocol.Entity { return new(protocol.T808_0x0104) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0104{ReplyMsgSerialNo: rU16(g.r)}
		w.u16(e.ReplyMsgSerialNo)
		e.Params = g.params(w)
		return e
	}))
	P(simple(0x0107, func() protocol.Entity { return new(protocol.T808_0x0107) }, func(g *gen, w *wb) protocol.Entity {
		sim := ""
		for i := g.n(20); i > 0; i-- {
			if sim == "" {
				sim = string(rune('1' + g.r.Intn(9)))
			} else {
				sim += string(rune('0' + g.r.Intn(10)))
			}
		}
		noNul := func(n int) string { return g.ascii(n) }
		e := &protocol.T808_0x0107{TerminalType: rU16(g.r), ManufactureID: noNul(5), Model: noNul(20), TerminalID: noNul(7), Sim: sim,
			HardwareVersion: noNul(255), SoftwareVersion: noNul(255), GNSSProperty: rByte(g.r), COMMProperty: rByte(g.r)}
		w.u16(e.TerminalType)
		w.fix(e.ManufactureID, 5)
		w.fix(e.Model, 20)
		w.fix(e.TerminalID, 7)
		digits := strings.Repeat("0", 20-len(sim)) + sim
		for i := 0; i < 20; i += 2 {
			w.u8((digits[i]-'0')<<4 | (digits[i+1] - '0'))
		}
		w.u8(byte(len(e.HardwareVersion)))
		w.raw([]byte(e.HardwareVersion))
		w.u8(byte(len(e.SoftwareVersion)))
		w.raw([]byte(e.SoftwareVersion))
		w.u8(e.GNSSProperty)
		w.u8(e.COMMProperty)
		return e
	}))
	P(simple(0x0108, func() protocol.Entity { return new(protocol.T808_0x0108) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0108{Type: rByte(g.r), Result: rByte(g.r)}
		w.u8(e.Type)
		w.u8(e.Result)
		return e
	}))
	P(simple(0x0200, func() protocol.Entity { return new(protocol.T808_0x0200) }, func(g *gen, w *wb) protocol.Entity {
		e := g.location(w, true)
		return &e
	}))
	P(simple(0x0201, func() protocol.Entity { return new(protocol.T808_0x0201) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0201{ReplyMsgSerialNo: rU16(g.r)}
		w.u16(e.ReplyMsgSerialNo)
		e.Result = g.location(w, true)
		return e
	}))
	P(simple(0x0301, func() protocol.Entity { return new(protocol.T808_0x0301) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0301{EventID: rByte(g.r)}
		w.u8(e.EventID)
		return e
	}))
	P(simple(0x0302, func() protocol.Entity { return new(protocol.T808_0x0302) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0302{ReplyMsgSerialNo: rU16(g.r), AnswerID: rByte(g.r)}
		w.u16(e.ReplyMsgSerialNo)
		w.u8(e.AnswerID)
		return e
	}))
	P(simple(0x0303, func() protocol.Entity { return new(protocol.T808_0x0303) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0303{Type: rByte(g.r), Flag: protocol.T808_0x0303_Flag(rByte(g.r))}
		w.u8(e.Type)
		w.u8(byte(e.Flag))
		return e
	}))
	P(simple(0x0500, func() protocol.Entity { return new(protocol.T808_0x0500) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0500{ReplyMsgSerialNo: rU16(g.r)}
		w.u16(e.ReplyMsgSerialNo)
		e.Result = g.location(w, true)
		return e
	}))
	P(simple(0x0700, func() protocol.Entity { return new(protocol.T808_0x0700) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0700{ReplyMsgSerialNo: rU16(g.r), Cmd: rByte(g.r), Data: g.bytes(1000)}
		w.u16(e.ReplyMsgSerialNo)
		w.u8(e.Cmd)
		w.raw(e.Data)
		return e
	}))
	P(simple(0x0701, func() protocol.Entity { return new(protocol.T808_0x0701) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0701{Content: g.bytes(1000)}
		e.Size = uint32(len(e.Content))
		if g.r.Intn(3) == 0 {
			e.Size = rU32(g.r)
		}
		w.u32(e.Size)
		w.raw(e.Content)
		return e
	}))
	P(simple(0x0702, func() protocol.Entity { return new(protocol.T808_0x0702) }, func(g *gen, w *wb) protocol.Entity {
		d := g.time().In(time.Local)
		e := &protocol.T808_0x0702{State: rByte(g.r), Time: g.time(), ICCardResult: rByte(g.r), DriverName: g.text(255), Number: g.text(20),
			CompanyName: g.text(255), ExpiryDate: time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, time.Local)}
		w.u8(e.State)
		w.time(e.Time)
		w.u8(e.ICCardResult)
		w.gb8(e.DriverName)
		w.fix(string(gbk(e.Number)), 20)
		w.gb8(e.CompanyName)
		date := []byte{bcd2(d.Year() / 100), bcd2(d.Year() % 100), bcd2(int(d.Month())), bcd2(d.Day())}
		if spoil.hit("time") {
			date[2+spoil.r.Intn(2)] = []byte{0x00, 0x32, 0x40, 0x99, 0x1a, 0xa1, 0xff}[spoil.r.Intn(7)]
		}
		w.raw(date)
		return e
	}))
	P(simple(0x0704, func() protocol.Entity { return new(protocol.T808_0x0704) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0704{Type: rByte(g.r)}
		n := g.n(15)
		w.u16(uint16(n))
		w.u8(e.Type)
		for i := 0; i < n; i++ {
			x := &wb{}
			e.Items = append(e.Items, g.location(x, true))
			if spoil.hit("item") {
				x.b = x.b[:spoil.r.Intn(28)]
			}
			w.u16(uint16(len(x.b)))
			w.raw(x.b)
		}
		return e
	}))
	P(simple(0x0705, func() protocol.Entity { return new(protocol.T808_0x0705) }, func(g *gen, w *wb) protocol.Entity {
		ms := g.r.Intn(86400000)
		switch g.r.Intn(6) {
		case 0:
			ms = []int{0, 1, 999, 1000, 59999, 60000, 3599999, 3600000, 86399999, 35999999, 36000000}[g.r.Intn(11)]
		case 1:
			ms = g.r.Intn(3600000)
		}
		n := g.n(80)
		e := &protocol.T808_0x0705{ReceiveTime: time.Duration(ms) * time.Millisecond}
		w.u16(uint16(n))
		w.raw([]byte{bcd2(ms / 3600000), bcd2(ms / 60000 % 60), bcd2(ms / 1000 % 60), bcd2(ms % 1000 / 100), bcd2(ms % 100)})
		for i := 0; i < n; i++ {
			var c protocol.T808_0x0705_CAN
			copy(c.ID[:], rBody(g.r, 4))
			copy(c.Data[:], rBody(g.r, 8))
			w.raw(c.ID[:])
			w.raw(c.Data[:])
			e.Items = append(e.Items, c)
		}
		return e
	}))
	P(simple(0x0800, func() protocol.Entity { return new(protocol.T808_0x0800) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0800{MediaID: rU32(g.r), Type: protocol.T808_0x0800_MediaType(rByte(g.r)), Coding: protocol.T808_0x0800_MediaCoding(rByte(g.r)), Event: rByte(g.r), ChannelID: rByte(g.r)}
		w.u32(e.MediaID)
		w.u8(byte(e.Type))
		w.u8(byte(e.Coding))
		w.u8(e.Event)
		w.u8(e.ChannelID)
		return e
	}))
	P(simple(0x0801, func() protocol.Entity { return new(protocol.T808_0x0801) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0801{MediaID: rU32(g.r), Type: protocol.T808_0x0800_MediaType(rByte(g.r)), Coding: protocol.T808_0x0800_MediaCoding(rByte(g.r)), Event: rByte(g.r), ChannelID: rByte(g.r)}
		w.u32(e.MediaID)
		w.u8(byte(e.Type))
		w.u8(byte(e.Coding))
		w.u8(e.Event)
		w.u8(e.ChannelID)
		e.Location = g.location(w, false)
		b := g.bytes(980)
		e.Packet = bytes.NewReader(b)
		w.raw(b)
		return e
	}))
	P(simple(0x0802, func() protocol.Entity { return new(protocol.T808_0x0802) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0802{ReplyMsgSerialNo: rU16(g.r)}
		n := g.n(25)
		w.u16(e.ReplyMsgSerialNo)
		w.u16(uint16(n))
		for i := 0; i < n; i++ {
			it := protocol.T808_0x0802_Item{MediaID: rU32(g.r), Type: protocol.T808_0x0800_MediaType(rByte(g.r)), ChannelID: rByte(g.r), Event: rByte(g.r)}
			w.u32(it.MediaID)
			w.u8(byte(it.Type))
			w.u8(it.ChannelID)
			w.u8(it.Event)
			it.Location = g.location(w, false)
			e.Items = append(e.Items, it)
		}
		return e
	}))
	P(simple(0x0805, func() protocol.Entity { return new(protocol.T808_0x0805) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x0805{ReplyMsgSerialNo: rU16(g.r), Result: protocol.T808_0x0805_Result(rByte(g.r))}
		w.u16(e.ReplyMsgSerialNo)
		w.u8(byte(e.Result))
		e.MediaIDs = g.u32s(w, 250, func(n int) { w.u16(uint16(n)) })
		return e
	}))
	P(simple(0x8001, func() protocol.Entity { return new(protocol.T808_0x8001) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8001{ReplyMsgSerialNo: rU16(g.r), ReplyMsgID: protocol.MsgID(rU16(g.r)), Result: protocol.Result(rByte(g.r))}
		w.u16(e.ReplyMsgSerialNo)
		w.u16(uint16(e.ReplyMsgID))
		w.u8(byte(e.Result))
		return e
	}))
	P(simple(0x8003, func() protocol.Entity { return new(protocol.T808_0x8003) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8003{MsgSerialNo: rU16(g.r)}
		w.u16(e.MsgSerialNo)
		n := g.n(255)
		w.u8(byte(n))
		e.PacketIDs = g.u16s(w, n)
		return e
	}))
	P(simple(0x8100, func() protocol.Entity { return new(protocol.T808_0x8100) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8100{MsgSerialNo: rU16(g.r), Result: protocol.T808_0x8100_Result(rByte(g.r)), AuthKey: g.text(300)}
		w.u16(e.MsgSerialNo)
		w.u8(byte(e.Result))
		w.gb(e.AuthKey)
		return e
	}))
	P(simple(0x8103, func() protocol.Entity { return new(protocol.T808_0x8103) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8103{}
		e.Params = g.params(w)
		return e
	}))
	empty(0x8104, func() protocol.Entity { return new(protocol.T808_0x8104) })
	P(simple(0x8105, func() protocol.Entity { return new(protocol.T808_0x8105) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8105{Cmd: protocol.T808_0x8105_Command(rByte(g.r)), Data: g.text(300)}
		w.u8(byte(e.Cmd))
		w.gb(e.Data)
		return e
	}))
	P(simple(0x8106, func() protocol.Entity { return new(protocol.T808_0x8106) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8106{}
		e.Params = g.u32s(w, 255, func(n int) { w.u8(byte(n)) })
		return e
	}))
	empty(0x8107, func() protocol.Entity { return new(protocol.T808_0x8107) })
	P(simple(0x8108, func() protocol.Entity { return new(protocol.T808_0x8108) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8108{Type: rByte(g.r), ManufactureID: g.ascii(5), Version: g.text(255), Data: g.bytes(700)}
		e.Size = uint32(len(e.Data))
		if g.r.Intn(3) == 0 {
			e.Size = rU32(g.r)
		}
		w.u8(e.Type)
		w.fix(e.ManufactureID, 5)
		w.gb8(e.Version)
		w.u32(e.Size)
		w.raw(e.Data)
		return e
	}))
	empty(0x8201, func() protocol.Entity { return new(protocol.T808_0x8201) })
	P(simple(0x8202, func() protocol.Entity { return new(protocol.T808_0x8202) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8202{Interval: rU16(g.r), Expire: rU32(g.r)}
		w.u16(e.Interval)
		w.u32(e.Expire)
		return e
	}))
	P(simple(0x8203, func() protocol.Entity { return new(protocol.T808_0x8203) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8203{MsgSerialNo: rU16(g.r), Type: rU32(g.r)}
		w.u16(e.MsgSerialNo)
		w.u32(e.Type)
		return e
	}))
	P(simple(0x8300, func() protocol.Entity { return new(protocol.T808_0x8300) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8300{Flag: rByte(g.r), Text: g.text(1000)}
		w.u8(e.Flag)
		w.gb(e.Text)
		return e
	}))
	P(simple(0x8301, func() protocol.Entity { return new(protocol.T808_0x8301) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8301{Type: rByte(g.r)}
		n, m := g.n(10), 90
		switch {
		case !g.small && g.r.Intn(20) == 0:
			n, m = 255, 1
		case g.r.Intn(10) == 0:
			n, m = 1+g.n(2), 255
		}
		w.u8(e.Type)
		w.u8(byte(n))
		for i := 0; i < n; i++ {
			v := protocol.T808_0x8301_Event{ID: rByte(g.r), Content: g.text(m)}
			w.u8(v.ID)
			w.gb8(v.Content)
			e.Events = append(e.Events, v)
		}
		return e
	}))
	P(simple(0x8302, func() protocol.Entity { return new(protocol.T808_0x8302) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8302{Flag: rByte(g.r), Question: g.text(255)}
		w.u8(e.Flag)
		w.gb8(e.Question)
		n, m := g.n(6), 100
		if g.r.Intn(10) == 0 {
			n, m = 1+g.n(1), 255
		}
		for i := 0; i < n; i++ {
			v := protocol.T808_0x8302_Answer{ID: rByte(g.r), Content: g.text(m)}
			w.u8(v.ID)
			w.gb8(v.Content)
			e.CandidateAnswers = append(e.CandidateAnswers, v)
		}
		return e
	}))
	P(simple(0x8303, func() protocol.Entity { return new(protocol.T808_0x8303) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8303{Type: protocol.T808_0x8303_Type(rByte(g.r))}
		n, m := g.n(6), 100
		switch {
		case !g.small && g.r.Intn(20) == 0:
			n, m = 255, 1
		case g.r.Intn(10) == 0:
			n, m = 1, 900
		}
		w.u8(byte(e.Type))
		w.u8(byte(n))
		for i := 0; i < n; i++ {
			v := protocol.T808_0x8303_Item{Name: g.text(m)}
			w.gb16(v.Name)
			e.Items = append(e.Items, v)
		}
		return e
	}))
	P(simple(0x8304, func() protocol.Entity { return new(protocol.T808_0x8304) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8304{Type: rByte(g.r), Content: g.text(1000)}
		w.u8(e.Type)
		w.gb16(e.Content)
		return e
	}))
	P(simple(0x8400, func() protocol.Entity { return new(protocol.T808_0x8400) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8400{Flag: protocol.T808_0x8400_Flag(rByte(g.r)), Number: g.text(20)}
		w.u8(byte(e.Flag))
		w.gb(e.Number)
		return e
	}))
	P(simple(0x8401, func() protocol.Entity { return new(protocol.T808_0x8401) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8401{Type: protocol.T808_0x8401_Type(rByte(g.r))}
		n, m := g.n(8), 50
		switch {
		case !g.small && g.r.Intn(20) == 0:
			n, m = 255, 0
		case g.r.Intn(10) == 0:
			n, m = 1, 255
		}
		w.u8(byte(e.Type))
		w.u8(byte(n))
		for i := 0; i < n; i++ {
			v := protocol.T808_0x8401_Contact{Flag: protocol.T808_0x8401_ContactFlag(rByte(g.r)), Number: g.text(m), Contact: g.text(m)}
			w.u8(byte(v.Flag))
			w.gb8(v.Number)
			w.gb8(v.Contact)
			e.Contacts = append(e.Contacts, v)
		}
		return e
	}))
	P(simple(0x8500, func() protocol.Entity { return new(protocol.T808_0x8500) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8500{Flag: protocol.T808_0x8500_Flag(rByte(g.r))}
		w.u8(byte(e.Flag))
		return e
	}))
	P(simple(0x8600, func() protocol.Entity { return new(protocol.T808_0x8600) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8600{Action: protocol.AreaAction(rByte(g.r))}
		n := g.n(20)
		w.u8(byte(e.Action))
		w.u8(byte(n))
		for i := 0; i < n; i++ {
			lat, lng := g.micro(90000000), g.micro(180000000)
			attr := rU16(g.r) &^ 0xc0
			if lat < 0 {
				attr |= 0x40
			}
			if lng < 0 {
				attr |= 0x80
			}
			a := protocol.CircleArea{ID: rU32(g.r), Attribute: protocol.AreaAttribute(attr), Lat: g.deg(lat), Lng: g.deg(lng), Radius: rU32(g.r)}
			w.u32(a.ID)
			w.u16(attr)
			w.u32(abs(lat))
			w.u32(abs(lng))
			w.u32(a.Radius)
			a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = g.areaTail(w, attr)
			e.Items = append(e.Items, a)
		}
		return e
	}))
	ids := func(id uint16, fresh func() protocol.Entity, mk func([]uint32) protocol.Entity) {
		P(simple(id, fresh, func(g *gen, w *wb) protocol.Entity {
			return mk(g.u32s(w, 255, func(n int) { w.u8(byte(n)) }))
		}))
	}
	ids(0x8601, func() protocol.Entity { return new(protocol.T808_0x8601) }, func(v []uint32) protocol.Entity { return &protocol.T808_0x8601{IDs: v} })
	P(simple(0x8602, func() protocol.Entity { return new(protocol.T808_0x8602) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8602{Action: protocol.AreaAction(rByte(g.r))}
		n := g.n(15)
		w.u8(byte(e.Action))
		w.u8(byte(n))
		for i := 0; i < n; i++ {
			south, west := g.r.Intn(2) == 0, g.r.Intn(2) == 0
			var la, lo [2]int64
			attr := rU16(g.r) &^ 0xc0
			for k := 0; k < 2; k++ {
				la[k], lo[k] = sgn(g.r, g.micro(90000000), south), sgn(g.r, g.micro(180000000), west)
				if g.r.Intn(8) == 0 { // a corner on the equator or the prime meridian
					la[k] = 0
				}
				if g.r.Intn(8) == 0 {
					lo[k] = 0
				}
				if la[k] < 0 {
					attr |= 0x40
				}
				if lo[k] < 0 {
					attr |= 0x80
				}
			}
			a := protocol.RectArea{ID: rU32(g.r), Attribute: protocol.AreaAttribute(attr), LeftTopLat: g.deg(la[0]), LeftTopLon: g.deg(lo[0]), RightBottomLat: g.deg(la[1]), RightBottomLon: g.deg(lo[1])}
			w.u32(a.ID)
			w.u16(attr)
			for k := 0; k < 2; k++ {
				w.u32(abs(la[k]))
				w.u32(abs(lo[k]))
			}
			a.StartTime, a.EndTime, a.MaxSpeed, a.Duration = g.areaTail(w, attr)
			e.Items = append(e.Items, a)
		}
		return e
	}))
	ids(0x8603, func() protocol.Entity { return new(protocol.T808_0x8603) }, func(v []uint32) protocol.Entity { return &protocol.T808_0x8603{IDs: v} })
	P(simple(0x8604, func() protocol.Entity { return new(protocol.T808_0x8604) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8604{ID: rU32(g.r)}
		south, west := g.r.Intn(2) == 0, g.r.Intn(2) == 0
		attr := rU16(g.r) &^ 0xc0
		n := g.n(120)
		v := &wb{}
		for i := 0; i < n; i++ {
			la, lo := sgn(g.r, g.micro(90000000), south), sgn(g.r, g.micro(180000000), west)
			if la < 0 {
				attr |= 0x40
			}
			if lo < 0 {
				attr |= 0x80
			}
			v.u32(abs(la))
			v.u32(abs(lo))
			e.Vertexes = append(e.Vertexes, protocol.Vertex{Lat: g.deg(la), Lng: g.deg(lo)})
		}
		e.Attribute = protocol.AreaAttribute(attr)
		w.u32(e.ID)
		w.u16(attr)
		e.StartTime, e.EndTime, e.MaxSpeed, e.Duration = g.areaTail(w, attr)
		w.u16(uint16(n))
		w.raw(v.b)
		return e
	}))
	ids(0x8605, func() protocol.Entity { return new(protocol.T808_0x8605) }, func(v []uint32) protocol.Entity { return &protocol.T808_0x8605{IDs: v} })
	P(simple(0x8606, func() protocol.Entity { return new(protocol.T808_0x8606) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8606{ID: rU32(g.r), Attribute: rU16(g.r), StartTime: g.time(), EndTime: g.time()}
		w.u32(e.ID)
		w.u16(e.Attribute)
		w.time(e.StartTime)
		w.time(e.EndTime)
		n := g.n(35)
		w.u16(uint16(n))
		for i := 0; i < n; i++ {
			lat, lng := g.micro(90000000), g.micro(180000000)
			attr := rByte(g.r) &^ 0x0f
			if lat < 0 {
				attr |= 4
			}
			if lng < 0 {
				attr |= 8
			}
			p := protocol.T808_0x8606_Point{ID: rU32(g.r), SectionID: rU32(g.r), Lat: g.deg(lat), Lng: g.deg(lng), Width: rByte(g.r)}
			x := &wb{}
			if g.r.Intn(2) == 0 {
				attr |= 1
				a, b := rU16(g.r), rU16(g.r)
				p.TimeTooLong, p.TimeTooShort = &a, &b
				x.u16(a)
				x.u16(b)
			}
			if g.r.Intn(2) == 0 {
				attr |= 2
				a, b := rU16(g.r), rByte(g.r)
				p.MaxSpeed, p.OverSpeedDuration = &a, &b
				x.u16(a)
				x.u8(b)
			}
			p.Attribute = protocol.T808_0x8606_SectionAttribute(attr)
			w.u32(p.ID)
			w.u32(p.SectionID)
			w.u32(abs(lat))
			w.u32(abs(lng))
			w.u8(p.Width)
			w.u8(attr)
			w.raw(x.b)
			e.Points = append(e.Points, p)
		}
		return e
	}))
	ids(0x8607, func() protocol.Entity { return new(protocol.T808_0x8607) }, func(v []uint32) protocol.Entity { return &protocol.T808_0x8607{IDs: v} })
	cmdData := func(id uint16, fresh func() protocol.Entity, mk func(byte, []byte) protocol.Entity) {
		P(simple(id, fresh, func(g *gen, w *wb) protocol.Entity {
			c, d := rByte(g.r), g.bytes(1000)
			w.u8(c)
			w.raw(d)
			return mk(c, d)
		}))
	}
	cmdData(0x8700, func() protocol.Entity { return new(protocol.T808_0x8700) }, func(c byte, d []byte) protocol.Entity { return &protocol.T808_0x8700{Cmd: c, Data: d} })
	cmdData(0x8701, func() protocol.Entity { return new(protocol.T808_0x8701) }, func(c byte, d []byte) protocol.Entity { return &protocol.T808_0x8701{Cmd: c, Data: d} })
	empty(0x8702, func() protocol.Entity { return new(protocol.T808_0x8702) })
	P(simple(0x8800, func() protocol.Entity { return new(protocol.T808_0x8800) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8800{MediaID: rU32(g.r)}
		w.u32(e.MediaID)
		if n := g.n(255); n > 0 {
			w.u8(byte(n))
			e.RetryIDs = g.u16s(w, n)
		}
		return e
	}))
	P(simple(0x8801, func() protocol.Entity { return new(protocol.T808_0x8801) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8801{ChannelID: rByte(g.r), Cmd: rU16(g.r), Duration: rU16(g.r), Save: protocol.T808_0x8801_SaveFlag(rByte(g.r)), Resolution: protocol.T808_0x8801_Resolution(rByte(g.r)),
			Quality: rByte(g.r), Lighting: rByte(g.r), Contrast: rByte(g.r), Saturability: rByte(g.r), Chroma: rByte(g.r)}
		w.u8(e.ChannelID)
		w.u16(e.Cmd)
		w.u16(e.Duration)
		for _, b := range []byte{byte(e.Save), byte(e.Resolution), e.Quality, e.Lighting, e.Contrast, e.Saturability, e.Chroma} {
			w.u8(b)
		}
		return e
	}))
	P(simple(0x8802, func() protocol.Entity { return new(protocol.T808_0x8802) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8802{Type: protocol.T808_0x0800_MediaType(rByte(g.r)), ChannelID: rByte(g.r), Event: rByte(g.r), StartTime: g.time(), EndTime: g.time()}
		w.raw([]byte{byte(e.Type), e.ChannelID, e.Event})
		w.time(e.StartTime)
		w.time(e.EndTime)
		return e
	}))
	P(simple(0x8803, func() protocol.Entity { return new(protocol.T808_0x8803) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8803{Type: protocol.T808_0x0800_MediaType(rByte(g.r)), ChannelID: rByte(g.r), Event: rByte(g.r), StartTime: g.time(), EndTime: g.time(), RemoveFlag: rByte(g.r)}
		w.raw([]byte{byte(e.Type), e.ChannelID, e.Event})
		w.time(e.StartTime)
		w.time(e.EndTime)
		w.u8(e.RemoveFlag)
		return e
	}))
	P(simple(0x8804, func() protocol.Entity { return new(protocol.T808_0x8804) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8804{Cmd: rByte(g.r), Duration: rU16(g.r), Save: protocol.T808_0x8801_SaveFlag(rByte(g.r)), AudioSampleRate: protocol.T808_0x8804_AudioSampleRate(rByte(g.r))}
		w.u8(e.Cmd)
		w.u16(e.Duration)
		w.u8(byte(e.Save))
		w.u8(byte(e.AudioSampleRate))
		return e
	}))
	P(simple(0x8805, func() protocol.Entity { return new(protocol.T808_0x8805) }, func(g *gen, w *wb) protocol.Entity {
		e := &protocol.T808_0x8805{MediaID: rU32(g.r), RemoveFlag: rByte(g.r)}
		w.u32(e.MediaID)
		w.u8(e.RemoveFlag)
		return e
	}))
	cmdData(0x8900, func() protocol.Entity { return new(protocol.T808_0x8900) }, func(c byte, d []byte) protocol.Entity { return &protocol.T808_0x8900{Type: c, Data: d} })
	cmdData(0x0900, func() protocol.Entity { return new(protocol.T808_0x0900) }, func(c byte, d []byte) protocol.Entity { return &protocol.T808_0x0900{Type: c, Data: d} })
	P(schema{id: 0x0901, fresh: func() protocol.Entity { return new(protocol.T808_0x0901) },
		gen: func(g *gen) (protocol.Entity, []byte) {
			d := g.bytes(3000)
			if g.r.Intn(2) == 0 {
				d = bytes.Repeat([]byte("compressible "), g.r.Intn(300))
			}
			var z bytes.Buffer
			zw, _ := gzip.NewWriterLevel(&z, []int{0, 1, 5, 6, 9, -2}[g.r.Intn(6)])
			zw.Write(d)
			zw.Close()
			w := &wb{}
			w.u32(uint32(z.Len()))
			w.raw(z.Bytes())
			return &protocol.T808_0x0901{Uncompressed: d}, w.b
		},
		loose: func(enc []byte, e protocol.Entity) string {
			if len(enc) < 4 {
				return "too short"
			}
			n := int(enc[0])<<24 | int(enc[1])<<16 | int(enc[2])<<8 | int(enc[3])
			if n != len(enc)-4 {
				return fmt.Sprintf("length field %d, %d bytes follow", n, len(enc)-4)
			}
			zr, err := gzip.NewReader(bytes.NewReader(enc[4:]))
			if err != nil {
				return err.Error()
			}
			d, err := io.ReadAll(zr)
			if err != nil {
				return err.Error()
			}
			if !bytes.Equal(d, e.(*protocol.T808_0x0901).Uncompressed) {
				return "decompresses to something else"
			}
			return ""
		}})
	P(simple(0x0A00, func() protocol.Entity { return new(protocol.T808_0x0A00) }, func(g *gen, w *wb) protocol.Entity {
		k := g.key()
		w.u32(uint32(k.E))
		w.raw(k.N.FillBytes(make([]byte, 128)))
		return &protocol.T808_0x0A00{PublicKey: k}
	}))
	P(simple(0x8A00, func() protocol.Entity { return new(protocol.T808_0x8A00) }, func(g *gen, w *wb) protocol.Entity {
		k := g.key()
		w.u32(uint32(k.E))
		w.raw(k.N.FillBytes(make([]byte, 128)))
		return &protocol.T808_0x8A00{PublicKey: k}
	}))
}

// ---------------------------------------------------------------- comparison by meaning

var (
	tDecimal = reflect.TypeOf(decimal.Decimal{})
	tTime    = reflect.TypeOf(time.Time{})
	tKey     = reflect.TypeOf(&rsa.PublicKey{})
	tParam   = reflect.TypeOf(&protocol.Param{})
	tExtra   = reflect.TypeOf((*extra.Entity)(nil)).Elem()
	tReader  = reflect.TypeOf((*io.Reader)(nil)).Elem()
)

// differ compares two messages field by field; empty result: same content.
func differ(a, b interface{}) string { return diffV("", reflect.ValueOf(a), reflect.ValueOf(b)) }

func readAllKeep(v reflect.Value) []byte {
	if v.IsNil() {
		return nil
	}
	r := v.Interface().(io.Reader)
	if s, ok := r.(io.Seeker); ok {
		s.Seek(0, io.SeekStart)
	}
	d, _ := io.ReadAll(r)
	if s, ok := r.(io.Seeker); ok {
		s.Seek(0, io.SeekStart)
	}
	return d
}

func diffV(path string, a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v / %v", path, a.Type(), b.Type())
	}
	switch a.Type() {
	case tDecimal:
		x, y := a.Interface().(decimal.Decimal), b.Interface().(decimal.Decimal)
		if !x.Equal(y) {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
		return ""
	case tTime:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
		return ""
	case tKey:
		x, y := a.Interface().(*rsa.PublicKey), b.Interface().(*rsa.PublicKey)
		if (x == nil) != (y == nil) || (x != nil && (x.E != y.E || x.N.Cmp(y.N) != 0)) {
			return fmt.Sprintf("%s: %v / %v", path, x, y)
		}
		return ""
	case tParam:
		x, y := a.Interface().(*protocol.Param), b.Interface().(*protocol.Param)
		if (x == nil) != (y == nil) {
			return path + ": nil param"
		}
		if x == nil {
			return ""
		}
		bx, _ := x.GetBytes()
		by, _ := y.GetBytes()
		if x.ID() != y.ID() || !bytes.Equal(bx, by) {
			return fmt.Sprintf("%s: param %x=%x / %x=%x", path, x.ID(), bx, y.ID(), by)
		}
		return ""
	case tExtra:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return path + ": nil extra"
			}
			return ""
		}
		x, y := a.Interface().(extra.Entity), b.Interface().(extra.Entity)
		if x.ID() != y.ID() {
			return fmt.Sprintf("%s: extra %02x / %02x", path, x.ID(), y.ID())
		}
		if !reflect.DeepEqual(x.Value(), y.Value()) {
			return fmt.Sprintf("%s: extra %02x value %v / %v", path, x.ID(), x.Value(), y.Value())
		}
		if !bytes.Equal(x.Data(), y.Data()) {
			return fmt.Sprintf("%s: extra %02x data %x / %x", path, x.ID(), x.Data(), y.Data())
		}
		return ""
	case tReader:
		if x, y := readAllKeep(a), readAllKeep(b); !bytes.Equal(x, y) {
			return fmt.Sprintf("%s: packet %x / %x", path, x, y)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v / nil %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diffV(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diffV(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d / %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffV(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				return d
			}
		}
		return ""
	}
	if x, y := a.Interface(), b.Interface(); x != y {
		return fmt.Sprintf("%s: %v / %v", path, x, y)
	}
	return ""
}

// clearSigns removes the flag bits that Encode derives from the values.
func clearSigns(v reflect.Value, r *rand.Rand) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			clearSigns(v.Elem(), r)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearSigns(v.Index(i), r)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).PkgPath != "" || !f.CanAddr() {
				continue
			}
			switch x := f.Addr().Interface().(type) {
			case *protocol.T808_0x0200_Status:
				*x &^= 0xc
			case *protocol.AreaAttribute:
				*x &^= 0xc0
			case *protocol.T808_0x8606_SectionAttribute:
				*x = *x&^0x0f | protocol.T808_0x8606_SectionAttribute(r.Intn(4))
			case *time.Time, *decimal.Decimal, *io.Reader:
			default:
				clearSigns(f, r)
			}
		}
	}
}
