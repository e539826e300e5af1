package harness

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
)

// rawEntity is an application-defined message whose body is taken as it is.
type rawEntity struct {
	id   uint16
	Data []byte
}

func (e *rawEntity) MsgID() protocol.MsgID   { return protocol.MsgID(e.id) }
func (e *rawEntity) Encode() ([]byte, error) { return append([]byte{}, e.Data...), nil }
func (e *rawEntity) Decode(b []byte) (int, error) {
	e.Data = append([]byte{}, b...)
	return len(b), nil
}

func registerRaw(ids ...uint16) {
	for _, id := range ids {
		id := id
		protocol.Register(id, func() protocol.Entity { return &rawEntity{id: id} })
	}
}

// ---------------------------------------------------------------- C01

func sameHeader(h protocol.Header, w refHeader, size int) string {
	p := h.Property
	switch {
	case uint16(h.MsgID) != w.ID:
		return fmt.Sprintf("message id %04x, want %04x", uint16(h.MsgID), w.ID)
	case h.IccID != w.Icc:
		return fmt.Sprintf("terminal number %d, want %d", h.IccID, w.Icc)
	case h.MsgSerialNo != w.Serial:
		return fmt.Sprintf("serial %d, want %d", h.MsgSerialNo, w.Serial)
	case p.IsEnablePacket() != w.Frag:
		return fmt.Sprintf("fragment flag %v, want %v", p.IsEnablePacket(), w.Frag)
	case p.IsEnableEncrypt() != w.Encrypt:
		return fmt.Sprintf("encryption flag %v, want %v", p.IsEnableEncrypt(), w.Encrypt)
	case uint16(p)&0xd800 != w.Extra&0xd800:
		return fmt.Sprintf("property %04x, want reserved bits %04x", uint16(p), w.Extra)
	case int(p.GetBodySize()) != size:
		return fmt.Sprintf("body size %d, want %d", p.GetBodySize(), size)
	case (h.Packet != nil) != w.Frag:
		return fmt.Sprintf("fragment info present %v, want %v", h.Packet != nil, w.Frag)
	case h.Packet != nil && (h.Packet.Sum != w.Sum || h.Packet.Seq != w.Seq):
		return fmt.Sprintf("fragment %d of %d, want %d of %d", h.Packet.Seq, h.Packet.Sum, w.Seq, w.Sum)
	}
	return ""
}

func checkFrame(h refHeader, body []byte) {
	if !h.Frag {
		h.Sum, h.Seq = 0, 0
	}
	want := refFrame(h, body)
	rec.Case(string(want))
	msg := protocol.Message{
		Header: protocol.Header{IccID: h.Icc, MsgSerialNo: h.Serial, MsgID: protocol.MsgID(h.ID)},
		Body:   &rawEntity{id: h.ID, Data: body},
	}
	if h.Frag {
		msg.Header.Packet = &protocol.Packet{Sum: h.Sum, Seq: h.Seq}
	}
	if h.Extra != 0 {
		msg.Header.Property = protocol.Property(h.Extra & 0xd800)
	}
	var got []byte
	var err error
	if p, st := trySafe(func() { got, err = msg.Encode() }); p != nil {
		rec.Violate("encode-panic", "encoding %+v body %s panics: %v\n%s", h, hx(body), p, st)
		return
	}
	if err != nil {
		rec.Violate("encode-error", "encoding %+v body %s fails: %v", h, hx(body), err)
		return
	}
	if !bytes.Equal(got, want) {
		rec.Violate("encode-bytes", "encoding %+v body %s\n gives %s\n want  %s", h, hx(body), hx(got), hx(want))
		return
	}
	for i, b := range got {
		if b == 0x7e && i != 0 && i != len(got)-1 {
			rec.Violate("stray-7e", "0x7e inside frame %s", hx(got))
		}
	}
	var back protocol.Message
	in := append([]byte{}, want...)
	if p, st := trySafe(func() { err = back.Decode(in) }); p != nil {
		rec.Violate("decode-panic", "decoding %s panics: %v\n%s", hx(want), p, st)
		return
	}
	if err != nil {
		rec.Violate("decode-error", "decoding the frame %s fails: %v", hx(want), err)
		return
	}
	if !bytes.Equal(in, want) {
		rec.Violate("input-changed", "decoding changed its input %s to %s", hx(want), hx(in))
	}
	if d := sameHeader(back.Header, h, len(body)); d != "" {
		rec.Violate("decode-header", "decoding the frame %s: %s", hx(want), d)
		return
	}
	re, ok := back.Body.(*rawEntity)
	if !ok || re == nil {
		rec.Violate("decode-body", "decoding the frame %s yields no body", hx(want))
		return
	}
	if !bytes.Equal(re.Data, body) {
		rec.Violate("decode-body", "decoding the frame %s yields body %s, want %s", hx(want), hx(re.Data), hx(body))
		return
	}
	// a received message can be passed on: it encodes to the frame it came from
	var again []byte
	if p, st := trySafe(func() { again, err = back.Encode() }); p != nil {
		rec.Violate("encode-panic", "encoding the message decoded from %s panics: %v\n%s", hx(want), p, st)
	} else if err != nil {
		rec.Violate("encode-error", "encoding the message decoded from %s fails: %v", hx(want), err)
	} else if !bytes.Equal(again, want) {
		rec.Violate("encode-bytes", "the message decoded from %s encodes to %s", hx(want), hx(again))
	}
}

// TestC01 compares Message.Encode/Decode with the reference frame.
func TestC01(t *testing.T) {
	for i := 0; i < 65536; i++ {
		registerRaw(uint16(i))
	}
	r := newRand("C01", 0)
	base := refHeader{ID: 0x0900, Icc: 13812345678, Serial: 7}
	n := 0
	mine := func() bool { n++; return n%shards == shard }
	// every body length in both modes, several fillings
	for l := 0; l <= 1023; l++ {
		for k := 0; k < 4; k++ {
			if !mine() {
				continue
			}
			h := base
			h.Frag = k%2 == 1
			h.Sum, h.Seq = 3, 2
			b := rBody(r, l)
			if k >= 2 {
				b = bytes.Repeat([]byte{[]byte{0x7e, 0x7d}[k-2]}, l)
			}
			checkFrame(h, b)
		}
	}
	// every id, serial, fragment total and number (stepping in quick mode)
	step := scale(17, 1)
	for v := shard; v < 65536; v += shards * step {
		h := base
		h.ID = uint16(v)
		checkFrame(h, []byte{1})
		h = base
		h.Serial = uint16(v)
		checkFrame(h, nil)
		h = base
		h.Frag, h.Sum, h.Seq = true, uint16(v), uint16(65535-v)
		checkFrame(h, []byte{2, 3})
	}
	for _, v := range []uint16{0, 1, 0x7d, 0x7e, 0x7d00, 0x7e00, 0x7d01, 0x7d02, 0x7e7e, 0x7d7d, 0x7e7d, 0x7d7e, 0xff, 0x100, 0xffff} {
		for _, w := range []uint16{0, 1, 0x7d, 0x7e, 0x7d7e, 0x7e7d, 0xffff} {
			checkFrame(refHeader{ID: v, Serial: w, Icc: 1}, []byte{1, 2})
			checkFrame(refHeader{ID: w, Serial: v, Icc: 10, Frag: true, Sum: v, Seq: w}, []byte{1, 2})
		}
	}
	// terminal numbers of every digit count
	p := uint64(1)
	for d := 1; d <= 12; d++ {
		for _, v := range []uint64{p, p * 9, p*10 - 1, p + 1} {
			h := base
			h.Icc = v
			checkFrame(h, []byte{9})
		}
		p *= 10
	}
	h0 := base
	h0.Icc = 0
	checkFrame(h0, []byte{9})
	// every checksum value and every single body byte
	for v := 0; v < 256; v++ {
		checkFrame(base, []byte{byte(v)})
		checkFrame(base, []byte{byte(v), 0x7d, byte(v)})
	}
	// special bytes at every position
	for pos := shard; pos < 200; pos += shards {
		for _, s := range [][]byte{{0x7e}, {0x7d}, {0x7d, 0x01}, {0x7d, 0x02}, {0x7e, 0x7d}, {0x7c, 0x01}} {
			b := make([]byte, 200+len(s))
			copy(b[pos:], s)
			checkFrame(base, b)
		}
	}
	for i := 0; i < scale(60000, 1500000)/shards; i++ {
		h := refHeader{ID: rU16(r), Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(2) == 0, Sum: rU16(r), Seq: rU16(r)}
		if r.Intn(4) == 0 {
			h.Extra = rU16(r) & 0xd800
		}
		b := rBody(r, rLen(r, 1023))
		checkFrame(h, b)
		if i < 3 {
			rec.Sample("%+v body %s", h, hx(b))
		}
		if rec.Enough() {
			break
		}
	}
	// Encode is a function of the message: a second call gives the same frame; messages do not share state
	for i := 0; i < 500; i++ {
		b := rBody(r, rLen(r, 1023))
		m := protocol.Message{Header: protocol.Header{IccID: rIcc(r), MsgSerialNo: rU16(r)}, Body: &rawEntity{id: rU16(r), Data: b}}
		if r.Intn(2) == 0 {
			m.Header.Packet = &protocol.Packet{Sum: rU16(r), Seq: rU16(r)}
		}
		a, e1 := m.Encode()
		keep := append([]byte{}, a...)
		m2 := protocol.Message{Header: protocol.Header{IccID: rIcc(r)}, Body: &rawEntity{id: 3, Data: rBody(r, 900)}}
		m2.Encode()
		c, e2 := m.Encode()
		rec.Case("")
		if e1 != nil || e2 != nil || !bytes.Equal(keep, c) || !bytes.Equal(keep, a) {
			rec.Violate("encode-unstable", "encoding the same message twice differs: %s / %s / %s (%v %v)", hx(keep), hx(a), hx(c), e1, e2)
		}
	}
}

// ---------------------------------------------------------------- C03

// creators of the built-in types, by decoding a frame with an unknown body is not
// possible; use a private table of exported types.
func newBuiltin(id uint16) protocol.Entity {
	for _, s := range schemas {
		if s.id == id {
			return s.fresh()
		}
	}
	return nil
}

var c03known = map[uint16]bool{}

func decodeSafe(f []byte) (m protocol.Message, err error, pan string) {
	if p, st := trySafe(func() { err = m.Decode(f) }); p != nil {
		pan = fmt.Sprintf("%v\n%s", p, st)
	}
	return
}

// checkAny judges one arbitrary byte string given to Message.Decode.
// Returns whether a body was delivered.
// staleEntity stands for what an earlier Decode left in a message.
type staleEntity struct{}

func (*staleEntity) MsgID() protocol.MsgID      { return 97 }
func (*staleEntity) Encode() ([]byte, error)    { return nil, nil }
func (*staleEntity) Decode([]byte) (int, error) { return 0, nil }

func checkAny(f []byte, what string) (body bool) {
	rec.Case(string(f))
	orig := append([]byte{}, f...)
	m, err, pan := decodeSafe(f)
	if pan != "" {
		rec.Violate("decode-panic", "%s: decoding %s panics: %s", what, hx(f), pan)
		return false
	}
	if !bytes.Equal(orig, f) {
		rec.Violate("input-changed", "%s: decoding changed its input %s", what, hx(orig))
	}
	hasBody := m.Body != nil && !reflect.ValueOf(m.Body).IsNil()
	want, werr := refParse(f)
	inner7e := len(f) > 2 && bytes.IndexByte(f[1:len(f)-1], 0x7e) >= 0
	if werr != nil {
		if err == nil {
			rec.Violate("accepted-damaged", "%s: %s is invalid (%v) but decodes without error", what, hx(f), werr)
		}
		if hasBody {
			rec.Violate("delivered-damaged", "%s: %s is invalid (%v) but yields a body", what, hx(f), werr)
		}
		rec.Count("rejected_"+strings.ReplaceAll(werr.Error(), " ", "_"), 1)
		return hasBody
	}
	if inner7e {
		return hasBody // not a frame of the wire format, never produced by the stream scanner
	}
	if want.H.Encrypt && want.Declared == len(want.Body) {
		if err == nil || hasBody {
			rec.Violate("encrypted-plain", "%s: encrypted frame %s without key gives err=%v body=%v", what, hx(f), err, hasBody)
		}
		rec.Count("encrypted_refused", 1)
		return hasBody
	}
	if err != nil {
		rec.Violate("rejected-intact", "%s: intact frame %s is rejected: %v", what, hx(f), err)
		return hasBody
	}
	if d := sameHeader(m.Header, want.H, want.Declared); d != "" {
		rec.Violate("header", "%s: frame %s: %s", what, hx(f), d)
	}
	if len(f)%3 == 0 { // the same into a message that was used before
		used := protocol.Message{Header: protocol.Header{IccID: 99, MsgSerialNo: 98, MsgID: 97, Packet: &protocol.Packet{Sum: 1, Seq: 1}}, Body: &staleEntity{}}
		var uerr error
		if p, st := trySafe(func() { uerr = used.Decode(f) }); p != nil {
			rec.Violate("decode-panic", "%s: decoding %s into a used message panics: %v\n%s", what, hx(f), p, st)
			return hasBody
		}
		if uerr != nil || sameHeader(used.Header, want.H, want.Declared) != "" {
			rec.Violate("stale-header", "%s: frame %s decoded into a used message gives err %v, header %+v", what, hx(f), uerr, used.Header)
		}
		ub := used.Body != nil && !reflect.ValueOf(used.Body).IsNil()
		if ub != hasBody || fmt.Sprintf("%T", used.Body) != fmt.Sprintf("%T", m.Body) {
			rec.Violate("stale-body", "%s: frame %s decoded into a used message has body %T, into a new one %T", what, hx(f), used.Body, m.Body)
		}
		rec.Count("decoded_into_used", 1)
	}
	switch {
	case want.Declared != len(want.Body):
		if hasBody {
			rec.Violate("length-mismatch", "%s: frame %s declares %d body bytes, has %d, but yields a body", what, hx(f), want.Declared, len(want.Body))
		}
		rec.Count("length_mismatch", 1)
	case !c03known[want.H.ID]:
		if hasBody {
			rec.Violate("unknown-type", "%s: frame %s of unknown type yields a body", what, hx(f))
		}
		rec.Count("unknown_type", 1)
	default:
		e := newBuiltin(want.H.ID)
		var derr error
		ent := protocol.Entity(e)
		if pk, ok := ent.(protocol.EntityPacket); ok {
			derr = pk.DecodePacket(append([]byte{}, want.Body...))
		} else {
			_, derr = e.Decode(append([]byte{}, want.Body...))
		}
		if (derr == nil) != hasBody {
			rec.Violate("body-presence", "%s: frame %s: decoding its body directly gives err=%v, the frame gives body=%v", what, hx(f), derr, hasBody)
		}
		if derr != nil {
			rec.Count("unparsable_body", 1)
		} else {
			rec.Count("delivered", 1)
		}
	}
	return hasBody
}

// tailFrom: the types whose layout ends in something of variable length without
// a length or count of its own, and the size of what precedes it.
var tailFrom = map[uint16]int{
	0x0100: 37, 0x0102: 0, 0x0200: 28, 0x0201: 30, 0x0500: 30, 0x0700: 3, 0x0701: 4, 0x0801: 36, 0x8100: 3, 0x8105: 1,
	0x8108: 11, 0x8300: 1, 0x8302: 2, 0x8400: 1, 0x8700: 1, 0x8701: 1, 0x8800: 4, 0x8900: 1, 0x0900: 1,
}

// checkCut gives the decoder the first n bytes of a body, in an intact frame.
func checkCut(sc schema, body []byte, n int) {
	f := refFrame(refHeader{ID: sc.id, Icc: 13912345678, Serial: 9}, body[:n])
	rec.Case(string(f))
	m, err, pan := decodeSafe(f)
	if pan != "" {
		rec.Violate("decode-panic", "body cut short: decoding %s panics: %s", hx(f), pan)
		return
	}
	if err != nil {
		rec.Violate("rejected-intact", "body cut short: intact frame %s is rejected: %v", hx(f), err)
		return
	}
	rec.Count("bodies_cut_short", 1)
	if m.Body == nil || reflect.ValueOf(m.Body).IsNil() {
		return
	}
	min, open := tailFrom[sc.id]
	if !open || n < min {
		rec.Violate(fmt.Sprintf("short-%04x", sc.id), "%04x: the first %d of the %d bytes of a body are not a body, but frame %s yields one: %+v", sc.id, n, len(body), hx(f), m.Body)
		return
	}
	switch sc.id {
	case 0x0200, 0x0201, 0x0500, 0x0700, 0x0701, 0x8108, 0x8302, 0x8700, 0x8701, 0x8800, 0x8900, 0x0900:
		// what was delivered is exactly what was sent (but for a lone id byte at the end of the extras)
		enc, err := m.Body.Encode()
		loc := sc.id == 0x0200 || sc.id == 0x0201 || sc.id == 0x0500
		if err != nil || !bytes.Equal(enc, body[:n]) && !(loc && n > min && bytes.Equal(enc, body[:n-1])) {
			rec.Violate(fmt.Sprintf("short-%04x", sc.id), "%04x: frame %s, whose body was cut to %d of %d bytes, yields a body that holds something else: %+v (%v)", sc.id, hx(f), n, len(body), m.Body, err)
		}
	}
}

// checkSpoilt gives the decoder complete bodies with one invalid value inside.
func checkSpoilt(sc schema, seed *rand.Rand) {
	sd := seed.Int63()
	for _, kind := range []string{"time", "extra", "item"} {
		spoil = &spoiler{kind: kind, at: -1}
		sc.gen(&gen{r: rand.New(rand.NewSource(sd)), small: true})
		n := spoil.n
		for k := 0; k < n; k++ {
			spoil = &spoiler{kind: kind, at: k, r: seed}
			_, body := sc.gen(&gen{r: rand.New(rand.NewSource(sd)), small: true})
			if len(body) > 1023 {
				continue
			}
			f := refFrame(refHeader{ID: sc.id, Icc: 13912345678, Serial: 9}, body)
			rec.Case(string(f))
			m, err, pan := decodeSafe(f)
			if pan != "" {
				rec.Violate("decode-panic", "invalid %s: decoding %s panics: %s", kind, hx(f), pan)
			} else if err != nil {
				rec.Violate("rejected-intact", "invalid %s: intact frame %s is rejected: %v", kind, hx(f), err)
			} else if m.Body != nil && !reflect.ValueOf(m.Body).IsNil() {
				rec.Violate(fmt.Sprintf("invalid-%s-%04x", kind, sc.id), "%04x: %s %d of the body is invalid, but frame %s yields a body: %+v", sc.id, kind, k, hx(f), m.Body)
			}
			rec.Count("bodies_with_invalid_"+kind, 1)
		}
	}
	spoil = nil
}

// checkZip damages compressed data (0x0901).
func checkZip(g *gen) {
	r := g.r
	plain := []byte(strings.Repeat(fmt.Sprintf("data %d ", r.Intn(1000)), 1+r.Intn(60)))
	if r.Intn(2) == 0 {
		plain = randBytes(r, r.Intn(500))
	}
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(plain)
	w.Close()
	z := buf.Bytes()
	try := func(what string, z []byte) {
		if len(z) > 1000 {
			return
		}
		f := refFrame(refHeader{ID: 0x0901, Icc: 13912345678, Serial: 9}, append(u32b(uint32(len(z))), z...))
		rec.Case(string(f))
		rec.Count("compressed_damaged", 1)
		m, err, pan := decodeSafe(f)
		if pan != "" || err != nil {
			rec.Violate("zip", "%s: decoding %s gives %v %s", what, hx(f), err, pan)
			return
		}
		// judged by the standard library
		zr, zerr := gzip.NewReader(bytes.NewReader(z))
		var want []byte
		if zerr == nil {
			want, zerr = io.ReadAll(zr)
		}
		has := m.Body != nil && !reflect.ValueOf(m.Body).IsNil()
		if has != (zerr == nil) {
			rec.Violate("zip", "%s: the compressed data of %s is (decompression: %v), but body delivered: %v", what, hx(f), zerr, has)
		} else if has {
			if e, ok := m.Body.(*protocol.T808_0x0901); !ok || !bytes.Equal(e.Uncompressed, want) {
				rec.Violate("zip", "%s: frame %s delivers %+v, not the %d bytes %s", what, hx(f), m.Body, len(want), hx(want))
			}
		}
	}
	try("intact", z)
	for k := 0; k < 30; k++ {
		try("compressed data cut short", z[:r.Intn(len(z))])
		b := append([]byte{}, z...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		try("compressed data changed", b)
	}
	for k := 1; k <= 12 && k < len(z); k++ {
		try("compressed data cut short", z[:len(z)-k])
	}
}

// TestC03 feeds mutated frames to Message.Decode.
func TestC03(t *testing.T) {
	for _, s := range schemas {
		c03known[s.id] = true
	}
	r := newRand("C03", 0)
	g := &gen{r: r}
	frameOf := func() ([]byte, refHeader) {
		s := schemas[r.Intn(len(schemas))]
		_, body := s.gen(g)
		h := refHeader{ID: s.id, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(4) == 0, Sum: rU16(r), Seq: rU16(r)}
		if len(body) > 1023 {
			body = body[:1023]
		}
		return refFrame(h, body), h
	}
	// exhaustive single-byte changes of the content of some frames
	for i := 0; i < scale(48, 1200); i++ {
		f, _ := frameOf()
		if i%shards != shard {
			continue
		}
		if len(f) > 160 {
			continue
		}
		checkAny(f, "unchanged")
		rec.Sample("single-byte changes of %s", hx(f))
		for pos := 0; pos < len(f); pos++ {
			for v := 0; v < 256; v++ {
				if byte(v) == f[pos] {
					continue
				}
				m := append([]byte{}, f...)
				m[pos] = byte(v)
				if checkAny(m, "single-byte change") {
					rec.Violate("single-change", "changing byte %d of %s to %02x yields a decoded body", pos, hx(f), v)
				}
			}
		}
		// truncations, insertions, deletions, adjacent swaps
		for pos := 0; pos < len(f); pos++ {
			checkAny(append([]byte{}, f[:pos]...), "truncation")
			checkAny(append(append([]byte{}, f[:pos]...), 0x7e), "closed truncation")
			checkAny(append([]byte{}, f[pos:]...), "tail")
			checkAny(append(append([]byte{}, f[:pos]...), f[pos+1:]...), "deletion")
			for _, v := range []byte{0x7d, 0x7e, 0, 1, byte(r.Intn(256))} {
				checkAny(append(append(append([]byte{}, f[:pos]...), v), f[pos:]...), "insertion")
			}
			if pos+1 < len(f) {
				m := append([]byte{}, f...)
				m[pos], m[pos+1] = m[pos+1], m[pos]
				checkAny(m, "swap")
			}
		}
		if rec.Enough() {
			return
		}
	}
	// checksums that need escaping, in every raw form
	for i := 0; i < scale(400, 8000)/shards+1; i++ {
		sc := schemas[r.Intn(len(schemas))]
		_, body := sc.gen(g)
		if len(body) > 1023 {
			body = body[:1023]
		}
		c := refContent(refHeader{ID: sc.id, Icc: rIcc(r), Serial: rU16(r)}, body, len(body))
		x := byte(0)
		for _, b := range c {
			x ^= b
		}
		want := []byte{0x7d, 0x7e, 0x7c, 1, 2}[r.Intn(5)]
		c[11] ^= x ^ want // low byte of the serial number
		f := refSeal(c)
		checkAny(f, "special checksum")
		n := len(f) - 2
		if want == 0x7d || want == 0x7e {
			n--
		}
		for _, tail := range [][]byte{{}, {0x7d}, {0x7e}, {want}, {0x7d, 1}, {0x7d, 2}, {0x7d, 0}, {0x7d, 3}, {0x7d, 0x7d}, {0x7d, 0x7d, 1}, {0x7d, 1, 1}, {0x7d, 2, 2}, {0x7d, want}, {want, 0x7d}} {
			checkAny(append(append(append([]byte{}, f[:n]...), tail...), 0x7e), "raw checksum")
		}
	}
	// crafted content: right checksum, anything else possibly wrong
	for i := 0; i < scale(120000, 3000000)/shards; i++ {
		var f []byte
		what := ""
		switch r.Intn(9) {
		case 8:
			what = "unknown type"
			id := uint16(r.Intn(65536))
			if r.Intn(2) == 0 { // close to a known one
				id = schemas[r.Intn(len(schemas))].id ^ 1<<r.Intn(16)
			}
			_, body := schemas[r.Intn(len(schemas))].gen(g)
			if len(body) > 1023 || r.Intn(2) == 0 {
				body = rBody(r, rLen(r, 60))
			}
			f = refFrame(refHeader{ID: id, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(3) == 0, Sum: rU16(r), Seq: rU16(r)}, body)
		case 0:
			what = "random content, sealed"
			f = refSeal(rBody(r, r.Intn(40)))
		case 1:
			what = "random bytes"
			f = rBody(r, r.Intn(60))
		case 2:
			what = "random between delimiters"
			f = append(append([]byte{0x7e}, rBody(r, r.Intn(60))...), 0x7e)
		case 3:
			what = "wrong declared length"
			h := refHeader{ID: schemas[r.Intn(len(schemas))].id, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(3) == 0, Sum: 1, Seq: 1}
			b := rBody(r, rLen(r, 300))
			f = refSeal(refContent(h, b, []int{r.Intn(1024), len(b) + 1, len(b) - 1, 0, 1023}[r.Intn(5)]))
		case 4:
			what = "flag bits"
			h := refHeader{ID: schemas[r.Intn(len(schemas))].id, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(3) == 0, Encrypt: r.Intn(3) == 0, Extra: uint16(r.Intn(65536)), Sum: rU16(r), Seq: rU16(r)}
			b := rBody(r, rLen(r, 300))
			f = refFrame(h, b)
		case 5:
			what = "bad terminal number"
			h := refHeader{ID: schemas[r.Intn(len(schemas))].id, Icc: rIcc(r), Serial: rU16(r)}
			c := refContent(h, rBody(r, r.Intn(8)), 0)
			c[4+r.Intn(6)] = byte(r.Intn(256))
			f = refSeal(c)
		case 6:
			what = "splice of two frames"
			a, _ := frameOf()
			b, _ := frameOf()
			f = append(append([]byte{}, a[:r.Intn(len(a))]...), b[r.Intn(len(b)):]...)
		case 7:
			what = "body of another type"
			s := schemas[r.Intn(len(schemas))]
			_, body := s.gen(g)
			if len(body) > 1023 {
				body = body[:1023]
			}
			cut := body
			if len(body) > 0 && r.Intn(2) == 0 {
				cut = body[:r.Intn(len(body))]
			}
			f = refFrame(refHeader{ID: schemas[r.Intn(len(schemas))].id, Icc: rIcc(r), Serial: rU16(r)}, cut)
		}
		checkAny(f, what)
		if rec.Enough() {
			return
		}
	}
	// bodies cut short do not parse
	for i := 0; i < scale(16, 300); i++ {
		for _, sc := range schemas {
			_, body := sc.gen(g)
			if len(body) > 1023 {
				body = body[:1023]
			}
			for n := 0; n < len(body); n++ {
				if len(body) > 100 && n > 50 && n < len(body)-20 && r.Intn(8) > 0 {
					continue
				}
				checkCut(sc, body, n)
			}
			for k := 0; k < 5; k++ {
				checkSpoilt(sc, r)
			}
			if rec.Enough() {
				return
			}
		}
		checkZip(g)
	}
	// oversized content: the 10-bit length can only match modulo 1024 / 65536
	for i := 0; i < scale(200, 3000)/shards+1; i++ {
		n := []int{1024, 1025, 2048, 65536 + r.Intn(1024), 65536, 1024 + r.Intn(1023), 66559}[r.Intn(7)]
		h := refHeader{ID: []uint16{0x0900, 0x0002, 0x0200}[r.Intn(3)], Icc: rIcc(r), Serial: rU16(r)}
		checkAny(refSeal(refContent(h, rBody(r, n), n&0x3ff)), "oversized body")
	}
}

// ---------------------------------------------------------------- C05

// chunkReader returns the stream in prescribed pieces.
type chunkReader struct {
	chunks   [][]byte
	eofWith  bool // deliver io.EOF together with the last bytes
	consumed int
	zero     *rand.Rand // sometimes return (0, nil)
	other    *otherConn // goes on while this one is read
}

// otherConn is a second connection, with frames of its own and a frame that
// breaks off, after which it is closed and another one comes.
type otherConn struct {
	r    *rand.Rand
	c    link.Codec
	want []refMsg
	what string
}

func (o *otherConn) step() {
	if o.c == nil {
		o.want = nil
		var s []byte
		for k := o.r.Intn(4); k >= 0; k-- {
			h := refHeader{ID: 0x0f02, Icc: rIcc(o.r), Serial: rU16(o.r)}
			body := rBody(o.r, o.r.Intn(40))
			s = append(s, refFrame(h, body)...)
			o.want = append(o.want, refMsg{H: h, Body: body})
		}
		f := refFrame(refHeader{ID: 0x0f02, Icc: 1, Serial: 1}, rBody(o.r, o.r.Intn(40)))
		s = append(s, f[:o.r.Intn(len(f))]...)
		o.c = newCodec(&chunkReader{chunks: segment(o.r, s, o.r.Intn(5))})
	}
	m, err := o.c.Receive()
	if len(o.want) == 0 {
		if err == nil {
			rec.Violate("other-surplus", "%s: a second connection delivers %s, which was not sent on it", o.what, snapshot(m.(protocol.Message)))
		}
		if o.r.Intn(4) > 0 {
			o.c.Close()
		}
		o.c = nil
		rec.Count("other_connections", 1)
		return
	}
	x := o.want[0]
	o.want = o.want[1:]
	if err != nil {
		rec.Violate("other-lost", "%s: a second connection fails: %v", o.what, err)
		o.c = nil
		return
	}
	got := m.(protocol.Message)
	if e, ok := got.Body.(*rawEntity); !ok || headerOf(&got) != x.H || !bytes.Equal(e.Data, x.Body) {
		rec.Violate("other-content", "%s: a second connection delivers %s, sent was %+v %s", o.what, snapshot(got), x.H, hx(x.Body))
	}
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.zero != nil && c.zero.Intn(4) == 0 {
		return 0, nil
	}
	if len(c.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.chunks[0])
	c.consumed += n
	if n == len(c.chunks[0]) {
		c.chunks = c.chunks[1:]
	} else {
		c.chunks[0] = c.chunks[0][n:]
	}
	if c.other != nil && c.other.r.Intn(3) == 0 {
		c.other.step()
	}
	if c.eofWith && len(c.chunks) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (c *chunkReader) Write(p []byte) (int, error) { return len(p), nil }
func (c *chunkReader) Close() error                { return nil }

func newCodec(rw io.ReadWriter) link.Codec {
	c, err := go808.Protocol{}.NewCodec(rw)
	if err != nil {
		panic(err)
	}
	return c
}

func segment(r *rand.Rand, s []byte, mode int) [][]byte {
	var out [][]byte
	switch mode {
	case 0: // one byte at a time
		for i := range s {
			out = append(out, s[i:i+1])
		}
	case 1: // all at once
		out = [][]byte{s}
	case 2: // cut exactly before and after every delimiter and escape
		last := 0
		for i := range s {
			if (s[i] == 0x7e || s[i] == 0x7d) && i > last {
				out = append(out, s[last:i])
				last = i
			}
		}
		out = append(out, s[last:])
	case 3: // after every delimiter and escape
		last := 0
		for i := range s {
			if s[i] == 0x7e || s[i] == 0x7d {
				out = append(out, s[last:i+1])
				last = i + 1
			}
		}
		if last < len(s) {
			out = append(out, s[last:])
		}
	default:
		max := []int{2, 5, 17, 127, 128, 129, 300, 1500}[r.Intn(8)]
		for len(s) > 0 {
			n := 1 + r.Intn(max)
			if n > len(s) {
				n = len(s)
			}
			out = append(out, s[:n])
			s = s[n:]
		}
	}
	cp := make([][]byte, 0, len(out))
	for _, c := range out {
		if len(c) > 0 {
			cp = append(cp, append([]byte{}, c...))
		}
	}
	return cp
}

type expect struct {
	kind string // good, bad, junk
	msg  refMsg
	raw  []byte
}

// snapshot describes a delivered message completely.
func snapshot(m protocol.Message) string {
	b := "nil"
	switch e := m.Body.(type) {
	case *rawEntity:
		b = fmt.Sprintf("raw %04x %x", e.id, e.Data)
	case *aliasEntity:
		b = fmt.Sprintf("raw %04x %x", e.id, e.Data)
	case nil:
	default:
		b = fmt.Sprintf("%T %+v", e, e)
	}
	return fmt.Sprintf("%04x %d %d %v %v %s", uint16(m.Header.MsgID), m.Header.IccID, m.Header.MsgSerialNo, m.Header.Property, m.Header.Packet, b)
}

// aliasEntity keeps the slice it is given, as several built-in types do.
type aliasEntity struct {
	id   uint16
	Data []byte
}

func (e *aliasEntity) MsgID() protocol.MsgID        { return protocol.MsgID(e.id) }
func (e *aliasEntity) Encode() ([]byte, error)      { return e.Data, nil }
func (e *aliasEntity) Decode(b []byte) (int, error) { e.Data = b; return len(b), nil }

// TestC05 runs frame sequences through the codec in many segmentations.
func TestC05(t *testing.T) {
	protocol.Register(0x0f01, func() protocol.Entity { return &aliasEntity{id: 0x0f01} })
	registerRaw(0x0f02)
	n := scale(4000, 120000) / shards
	for i := 0; i < n; i++ {
		r := newRand("C05", i)
		var exp []expect
		var stream []byte
		nf := 1 + r.Intn(12)
		kinds := []int{0, 3, 10}[r.Intn(3)] // how often frames are damaged
		for k := 0; k < nf; k++ {
			h := refHeader{ID: []uint16{0x0f01, 0x0f02, 0x0f01, 0x0eee}[r.Intn(4)], Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(4) == 0, Sum: rU16(r), Seq: rU16(r)}
			if !h.Frag {
				h.Sum, h.Seq = 0, 0
			}
			body := rBody(r, rLen(r, []int{3, 40, 200, 1023}[r.Intn(4)]))
			f := refFrame(h, body)
			e := expect{kind: "good", msg: refMsg{H: h, Body: body, Declared: len(body)}, raw: f}
			if kinds > 0 && r.Intn(10) < kinds && r.Intn(2) == 0 {
				// damage: change one content byte to another non-delimiter value so that it is invalid
				for try := 0; try < 20; try++ {
					m := append([]byte{}, f...)
					pos := 1 + r.Intn(len(m)-2)
					v := byte(r.Intn(256))
					if v == 0x7e || v == m[pos] {
						continue
					}
					m[pos] = v
					if r.Intn(6) == 0 { // very short frames
						m = append(append([]byte{0x7e}, bytes.ReplaceAll(rBody(r, r.Intn(15)), []byte{0x7e}, []byte{0x11})...), 0x7e)
					}
					if _, err := refParse(m); err != nil {
						e = expect{kind: "bad", raw: m}
						break
					}
				}
			}
			if kinds == 10 && r.Intn(4) == 0 {
				j := bytes.ReplaceAll(rBody(r, 1+r.Intn(200)), []byte{0x7e}, []byte{0x22})
				exp = append(exp, expect{kind: "junk", raw: j})
				stream = append(stream, j...)
			}
			exp = append(exp, e)
			stream = append(stream, e.raw...)
		}
		if len(stream) == 0 {
			continue
		}
		modes := []int{0, 1, 2, 3, 4, 4}
		for _, mode := range modes {
			cr := &chunkReader{chunks: segment(r, stream, mode), eofWith: r.Intn(3) == 0}
			if r.Intn(6) == 0 {
				cr.zero = rand.New(rand.NewSource(int64(i)))
			}
			if r.Intn(3) == 0 {
				cr.other = &otherConn{r: rand.New(rand.NewSource(r.Int63())), what: fmt.Sprintf("stream %d", i)}
				for k := r.Intn(8); k > 0; k-- {
					cr.other.step()
				}
			}
			runStream(cr, exp, stream, mode, i)
		}
		if i < 2 {
			rec.Sample("stream of %d frames: %s", nf, hx(stream))
		}
		if rec.Enough() {
			return
		}
	}
	// unlimited buffering is refused
	r := newRand("C05big", 0)
	for i := 0; i < scale(20, 200); i++ {
		fill := []byte{0, 0x7d, 0x55}[r.Intn(3)]
		total := 400000
		chunk := []int{1, 7, 100, 128, 129, 4096}[r.Intn(6)]
		if chunk == 1 {
			chunk = 13
		}
		pre := 0
		var exp []byte
		if r.Intn(2) == 0 { // after some good frames
			exp = refFrame(refHeader{ID: 0x0f02, Icc: 5, Serial: 9}, rBody(r, 100))
			pre = 1
		}
		s := append(append(append([]byte{}, exp...), 0x7e), bytes.Repeat([]byte{fill}, total)...)
		cr := &chunkReader{}
		for len(s) > 0 {
			k := chunk
			if k > len(s) {
				k = len(s)
			}
			cr.chunks = append(cr.chunks, s[:k])
			s = s[k:]
		}
		c := newCodec(cr)
		for k := 0; k < pre; k++ {
			if _, err := c.Receive(); err != nil {
				rec.Violate("frame-lost", "frame before an endless one not delivered: %v", err)
			}
		}
		_, err := c.Receive()
		rec.Case(fmt.Sprintf("endless %d %d %d", fill, chunk, pre))
		rec.Count("endless_frames", 1)
		if err == nil {
			rec.Violate("endless-accepted", "an endless frame was delivered")
		} else if cr.consumed > 65536*2+len(exp) {
			rec.Violate("endless-buffered", "an endless frame (fill %02x, chunks of %d) was buffered for %d bytes before the error %v", fill, chunk, cr.consumed, err)
		}
	}
	// exactly at the limit: 65535 pending bytes are kept, one more is refused
	for i := 0; i < scale(4, 40); i++ {
		cr := &chunkReader{}
		s := bytes.Repeat([]byte{0x41}, 66000)
		s[0] = 0x7e
		for len(s) > 0 {
			k := 1
			if len(s) > 700 {
				k = 1 + r.Intn(126)
			}
			cr.chunks = append(cr.chunks, s[:k])
			s = s[k:]
		}
		c := newCodec(cr)
		_, err := c.Receive()
		rec.Case(fmt.Sprintf("limit %d", i))
		rec.Count("endless_frames", 1)
		if err == nil || cr.consumed != 65536 {
			rec.Violate("endless-limit", "a frame that does not end is given up (%v) after %d bytes, not after 65536", err, cr.consumed)
		}
	}
	// a pending frame shorter than the limit is not refused: largest legal frame, byte by byte
	// so is a long damaged frame: it costs one error and the frames around it are delivered
	for i := 0; i < scale(60, 600); i++ {
		var exp []expect
		var stream []byte
		add := func(kind string, m refMsg, raw []byte) {
			exp = append(exp, expect{kind: kind, msg: m, raw: raw})
			stream = append(stream, raw...)
		}
		good := func() {
			h := refHeader{ID: 0x0f02, Icc: rIcc(r), Serial: rU16(r)}
			body := rBody(r, r.Intn(60))
			add("good", refMsg{H: h, Body: body, Declared: len(body)}, refFrame(h, body))
		}
		if r.Intn(2) == 0 {
			good()
		}
		for k := 0; k <= r.Intn(3); k++ {
			l := []int{300, 1100, 2050, 4090, 8190, 16380, 32700, 60000, 65200}[r.Intn(9)] + r.Intn(60)
			raw := bytes.ReplaceAll(randBytes(r, l), []byte{0x7e}, []byte{0x33})
			raw = append(append([]byte{0x7e}, raw...), 0x7e)
			if m, err := refParse(raw); err == nil && m.Declared != len(m.Body) {
				break // valid by chance
			}
			add("bad", refMsg{}, raw)
			good()
		}
		cr := &chunkReader{chunks: segment(r, stream, 2+i%3)}
		rec.Count("long_damaged_frames", 1)
		runStream(cr, exp, stream, 2+i%3, 1000000+i)
	}
	for i := 0; i < 20; i++ {
		f := refFrame(refHeader{ID: 0x0f02, Icc: 777777777777, Serial: 0x7e7e, Frag: true, Sum: 0x7e7e, Seq: 0x7d7d}, bytes.Repeat([]byte{0x7e}, 1023))
		cr := &chunkReader{chunks: segment(r, bytes.Repeat(f, 40), i%5)}
		c := newCodec(cr)
		for k := 0; k < 40; k++ {
			if _, err := c.Receive(); err != nil {
				rec.Violate("frame-lost", "largest frame number %d of a stream refused: %v", k, err)
				break
			}
		}
		rec.Case(fmt.Sprintf("largest %d", i))
	}
}

func runStream(cr *chunkReader, exp []expect, stream []byte, mode, idx int) {
	desc := func() string {
		return fmt.Sprintf("case %d segmentation mode %d stream %s", idx, mode, hx(stream))
	}
	rec.Case(fmt.Sprintf("%d/%s", mode, stream))
	c := newCodec(cr)
	pos := 0
	type snap struct {
		m protocol.Message
		s string
	}
	var snaps []snap
	errsInJunk := 0
	for steps := 0; ; steps++ {
		if steps > len(stream)+1000 {
			rec.Violate("endless", "Receive never reports the end of the stream: %s", desc())
			return
		}
		var v interface{}
		var err error
		if p, st := trySafe(func() { v, err = c.Receive() }); p != nil {
			rec.Violate("receive-panic", "Receive panics: %v\n%s\n%s", p, st, desc())
			return
		}
		if err != nil {
			if errors.Is(err, io.EOF) && len(cr.chunks) == 0 {
				break
			}
			// an error must belong to a bad frame or junk at this point
			if pos < len(exp) && exp[pos].kind == "junk" {
				errsInJunk++
				rec.Count("junk_errors", 1)
				// junk may be reported piecewise; stay until a frame arrives
				allowed := 0 // junk and bad frames up to the next good one
				for k := pos; k < len(exp) && exp[k].kind != "good"; k++ {
					if exp[k].kind == "junk" {
						allowed += len(exp[k].raw)
					} else {
						allowed++
					}
				}
				if errsInJunk > allowed {
					rec.Violate("junk-errors", "more errors than junk bytes: %s", desc())
					return
				}
				// the next error may already be the following bad frame: decide lazily
				continue
			}
			if pos < len(exp) && exp[pos].kind == "bad" {
				pos++
				rec.Count("bad_frames", 1)
				continue
			}
			rec.Violate("spurious-error", "error %v where item %d of %d (%s) was expected: %s", err, pos, len(exp), kindAt(exp, pos), desc())
			return
		}
		m, ok := v.(protocol.Message)
		if !ok {
			rec.Violate("type", "Receive returned %T", v)
			return
		}
		// skip junk, and bad frames directly behind junk whose error was counted as junk
		for pos < len(exp) && (exp[pos].kind == "junk" || (exp[pos].kind == "bad" && errsInJunk > 0)) {
			if exp[pos].kind == "bad" {
				if errsInJunk < 1 {
					break
				}
			}
			pos++
		}
		errsInJunk = 0
		if pos >= len(exp) || exp[pos].kind != "good" {
			rec.Violate("spurious-frame", "a message (%s) delivered where item %d of %d (%s) was expected: %s", snapshot(m), pos, len(exp), kindAt(exp, pos), desc())
			return
		}
		w := exp[pos]
		pos++
		if d := sameHeader(m.Header, w.msg.H, len(w.msg.Body)); d != "" {
			rec.Violate("wrong-frame", "item %d: %s: %s", pos-1, d, desc())
			return
		}
		var got []byte
		has := true
		switch e := m.Body.(type) {
		case *rawEntity:
			got = e.Data
		case *aliasEntity:
			got = e.Data
		default:
			has = false
		}
		if w.msg.H.ID == 0x0eee {
			if has || m.Body != nil {
				rec.Violate("wrong-body", "item %d of unknown type has a body: %s", pos-1, desc())
			}
		} else if !has || !bytes.Equal(got, w.msg.Body) {
			rec.Violate("wrong-body", "item %d: body %s, want %s: %s", pos-1, hx(got), hx(w.msg.Body), desc())
			return
		}
		snaps = append(snaps, snap{m, snapshot(m)})
		rec.Count("frames_delivered", 1)
	}
	for pos < len(exp) && (exp[pos].kind == "junk" || (exp[pos].kind == "bad" && errsInJunk > 0)) {
		pos++
	}
	if pos != len(exp) {
		rec.Violate("lost", "stream ended but item %d of %d (%s) was not delivered: %s", pos, len(exp), kindAt(exp, pos), desc())
	}
	for k, s := range snaps {
		if now := snapshot(s.m); now != s.s {
			rec.Violate("changed-later", "message %d changed after delivery from %s to %s: %s", k, s.s, now, desc())
		}
	}
}

func kindAt(exp []expect, i int) string {
	if i >= len(exp) {
		return "end of stream"
	}
	return exp[i].kind + " " + hx(exp[i].raw)
}
