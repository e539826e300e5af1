package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"gitee.com/coco/go808/protocol"
)

func decodeEntity(s schema, body []byte) (e protocol.Entity, err error, pan string) {
	e = s.fresh()
	p, st := trySafe(func() {
		if pk, ok := e.(protocol.EntityPacket); ok {
			err = pk.DecodePacket(body)
		} else {
			_, err = e.Decode(body)
		}
	})
	if p != nil {
		pan = fmt.Sprintf("%v\n%s", p, st)
	}
	return
}

func checkLayout(s schema, g *gen) {
	e, body := s.gen(g)
	key := func(k string) string { return fmt.Sprintf("%s-%04x", k, s.id) }
	rec.Case(fmt.Sprintf("%04x%s", s.id, body))
	// decode what the standard prescribes
	in := append([]byte{}, body...)
	d, err, pan := decodeEntity(s, in)
	if pan != "" {
		rec.Violate(key("decode-panic"), "%04x: decoding %s panics: %s", s.id, hx(body), pan)
		return
	}
	if err != nil {
		rec.Violate(key("decode"), "%04x: decoding %s (%+v) fails: %v", s.id, hx(body), e, err)
		return
	}
	if !bytes.Equal(in, body) {
		rec.Violate(key("input-changed"), "%04x: decoding changed its input", s.id)
	}
	if df := differ(e, d); df != "" {
		rec.Violate(key("decode"), "%04x: %s decodes to other values (sent / decoded): %s", s.id, hx(body), df)
		return
	}
	// encode
	enc := func(x protocol.Entity, what string) []byte {
		var b []byte
		var err error
		if p, st := trySafe(func() { b, err = x.Encode() }); p != nil {
			rec.Violate(key("encode-panic"), "%04x: encoding %s panics: %v\n%s", s.id, what, p, st)
			return nil
		}
		if err != nil {
			rec.Violate(key("encode"), "%04x: encoding %s fails: %v (layout %s)", s.id, what, err, hx(body))
			return nil
		}
		if s.loose != nil {
			if df := s.loose(b, e); df != "" {
				rec.Violate(key("encode"), "%04x: encoding %s gives %s: %s", s.id, what, hx(b), df)
			}
			return b
		}
		if !bytes.Equal(b, body) {
			rec.Violate(key("encode"), "%04x: encoding %s gives\n %s, standard layout is\n %s", s.id, what, hx(b), hx(body))
			return nil
		}
		return b
	}
	variant := g.r.Intn(3)
	if variant == 0 {
		clearSigns(reflect.ValueOf(e), g.r)
	}
	first := enc(e, fmt.Sprintf("variant %d of %+v", variant, e))
	if first == nil {
		return
	}
	// what was decoded can be encoded and decoded again
	keep := append([]byte{}, first...)
	re := enc(d, "the decoded message")
	if re == nil {
		return
	}
	d2, err, pan := decodeEntity(s, append([]byte{}, re...))
	if pan != "" || err != nil {
		rec.Violate(key("decode"), "%04x: decoding the re-encoded message fails: %v %s", s.id, err, pan)
		return
	}
	dd, _, _ := decodeEntity(s, append([]byte{}, body...))
	if df := differ(dd, d2); df != "" {
		rec.Violate(key("reencode"), "%04x: %s changes when decoded, encoded and decoded again: %s", s.id, hx(body), df)
	}
	if !bytes.Equal(keep, first) {
		rec.Violate(key("shared-buffer"), "%04x: an encoded body changed when another message was encoded", s.id)
	}
	// as a frame
	if len(body) <= 1023 && s.loose == nil {
		e3, _, _ := decodeEntity(s, append([]byte{}, body...))
		h := refHeader{ID: s.id, Icc: rIcc(g.r), Serial: rU16(g.r)}
		m := protocol.Message{Header: protocol.Header{IccID: h.Icc, MsgSerialNo: h.Serial}, Body: e3}
		f, err := m.Encode()
		if err != nil || !bytes.Equal(f, refFrame(h, body)) {
			rec.Violate(key("frame"), "%04x: the frame of %s is %s, err %v", s.id, hx(body), hx(f), err)
			return
		}
		var back protocol.Message
		if err := back.Decode(f); err != nil || back.Body == nil {
			rec.Violate(key("frame"), "%04x: frame %s does not decode: %v", s.id, hx(f), err)
			return
		}
		e4, _, _ := decodeEntity(s, append([]byte{}, body...))
		if df := differ(e4, back.Body); df != "" {
			rec.Violate(key("frame"), "%04x: frame %s decodes to other values: %s", s.id, hx(f), df)
		}
	}
	rec.Count(fmt.Sprintf("type_%04x", s.id), 1)
}

// TestC02 compares every message type with its reference layout, both ways.
func TestC02(t *testing.T) {
	n := scale(400, 12000)
	for i := 0; i < n; i++ {
		for k, s := range schemas {
			if (i*len(schemas)+k)%shards != shard {
				continue
			}
			g := &gen{r: newRand("C02", i*100+k), small: i%3 == 0}
			checkLayout(s, g)
		}
		if rec.Enough() {
			return
		}
	}
	rec.Sample("one case per type and index; e.g. type 0200 index 0: %s", func() string { _, b := schemas[8].gen(&gen{r: newRand("C02", 8)}); return hx(b) }())
	// every date of the century through a location report
	if shard == 0 {
		allDates()
	}
}

func allDates() {
	var base protocol.T808_0x0200
	w := &wb{}
	base = (&gen{r: newRand("C02dates", 0), small: true}).location(w, false)
	for y := 2000; y <= 2099; y++ {
		for _, c := range []struct{ mo, d, h, mi, s int }{{1, 1, 0, 0, 0}, {12, 31, 23, 59, 59}, {2, 28, 9, 10, 0}, {10, 10, 10, 10, 10}, {1, 2, 3, 4, 5}, {8, 8, 0, 0, 1}} {
			t := mkTime(y, c.mo, c.d, c.h, c.mi, c.s)
			base.Time = t
			x := &wb{}
			x.time(t)
			b, err := base.Encode()
			rec.Case(fmt.Sprintf("date%v", t))
			if err != nil || !bytes.Equal(b[22:28], x.b) {
				rec.Violate("date", "time %v encodes to %x, want %x (%v)", t, b, x.b, err)
				continue
			}
			var d protocol.T808_0x0200
			if _, err := d.Decode(b); err != nil || !d.Time.Equal(t) {
				rec.Violate("date", "time %v (%x) decodes to %v, err %v", t, x.b, d.Time, err)
			}
		}
	}
}
