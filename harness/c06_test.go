package harness

import (
	"bytes"
	"crypto/rsa"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
)

// text fields of a fixed width: the standard cuts or pads them
var fixedText = map[string]bool{"ManufactureID": true, "Model": true, "TerminalID": true, "Sim": true, "0702.Number": true}

// site is a list or text inside a message.
type site struct {
	path string
	v    reflect.Value
}

func growable(id uint16, path string, v reflect.Value, out *[]site) {
	switch v.Type() {
	case tDecimal, tTime, tKey, tParam, tReader, tExtra:
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			growable(id, path, v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || fixedText[f.Name] || fixedText[fmt.Sprintf("%04x.%s", id, f.Name)] {
				continue
			}
			growable(id, path+"."+f.Name, v.Field(i), out)
		}
	case reflect.Slice:
		*out = append(*out, site{path, v})
		for i := 0; i < v.Len() && i < 3; i++ {
			growable(id, fmt.Sprintf("%s[%d]", path, i), v.Index(i), out)
		}
	case reflect.String:
		*out = append(*out, site{path, v})
	}
}

// fixedSites finds the texts of a fixed width.
func fixedSites(id uint16, path string, v reflect.Value, out *[]site) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath == "" && f.Type.Kind() == reflect.String && (fixedText[f.Name] || fixedText[fmt.Sprintf("%04x.%s", id, f.Name)]) {
			*out = append(*out, site{path + "." + f.Name, v.Field(i)})
		}
	}
}

// judgeCut: a text too long for its width is cut, or the message refused; nothing else changes.
func judgeCut(s schema, e protocol.Entity, k int, text string) {
	var in, out []site
	fixedSites(s.id, "", reflect.ValueOf(e), &in)
	what := fmt.Sprintf("%s = %q", in[k].path, text)
	in[k].v.SetString(text)
	var b []byte
	var err error
	if p, st := trySafe(func() { b, err = e.Encode() }); p != nil {
		rec.Violate("panic", "%04x %s: encoding panics: %v\n%s", s.id, what, p, st)
		return
	}
	rec.Case(fmt.Sprintf("%04x cut %s", s.id, what))
	if err != nil {
		rec.Count("refused", 1)
		return
	}
	d, err, pan := decodeEntity(s, append([]byte{}, b...))
	if pan != "" || err != nil {
		rec.Violate("cut", "%04x %s: encoding succeeds but the body does not decode: %v %s\n%s", s.id, what, err, pan, hx(b))
		return
	}
	fixedSites(s.id, "", reflect.ValueOf(d), &out)
	got := out[k].v.String()
	out[k].v.SetString(text)
	if df := differ(e, d); df != "" {
		rec.Violate("cut", "%04x %s: a text too long for its field changes other fields (given / decoded): %s\n%s", s.id, what, df, hx(b))
	}
	if strings.Trim(text, "ab19") == "" && !strings.HasPrefix(text, got) {
		rec.Violate("cut", "%04x %s: the text that was cut decodes to %q", s.id, what, got)
	}
	rec.Count("cut_texts", 1)
}

// grow makes the list or text n long out of what it holds already.
func (s site) grow(n int, fill string) bool {
	switch s.v.Kind() {
	case reflect.String:
		s.v.SetString(strings.Repeat(fill, n/len(gbk(fill)))) // n bytes on the wire
		return s.v.Len() > 0
	case reflect.Slice:
		if s.v.Len() == 0 {
			return false
		}
		nv := reflect.MakeSlice(s.v.Type(), n, n)
		for i := 0; i < n; i++ {
			nv.Index(i).Set(s.v.Index(i % s.v.Len()))
		}
		s.v.Set(nv)
		return true
	}
	return false
}

// judgeFrame: encoding fails or yields a frame that decodes to the message.
func judgeFrame(s schema, e protocol.Entity, what string, fits ...bool) {
	key := func(k string) string { return fmt.Sprintf("%s-%04x", k, s.id) }
	m := protocol.Message{Header: protocol.Header{IccID: 13800138000, MsgSerialNo: 77}, Body: e}
	var f []byte
	var err error
	if p, st := trySafe(func() { f, err = m.Encode() }); p != nil {
		rec.Violate(key("panic"), "%04x %s: encoding panics: %v\n%s", s.id, what, p, st)
		return
	}
	rec.Case(fmt.Sprintf("%04x%s%v%s", s.id, what, err, f))
	if err != nil {
		if len(fits) > 0 && fits[0] {
			rec.Violate(key("refused"), "%04x %s: fits, but is refused: %v", s.id, what, err)
		}
		rec.Count("refused", 1)
		// too long for one frame; the body alone, to be sent in parts, still holds the message
		if p, st := trySafe(func() { f, err = e.Encode() }); p != nil {
			rec.Violate(key("panic"), "%04x %s: encoding the body panics: %v\n%s", s.id, what, p, st)
		} else if err == nil && len(f) <= 65535 {
			rec.Count("bodies_longer_than_a_frame", 1)
			d, err, pan := decodeEntity(s, append([]byte{}, f...))
			if pan != "" || err != nil {
				rec.Violate(key("corrupted"), "%04x %s: encoding succeeds but the body does not decode: %v %s\n%s", s.id, what, err, pan, hx(f))
			} else if df := differ(e, d); df != "" {
				rec.Violate(key("corrupted"), "%04x %s: encoding succeeds but the body decodes to something else (given / decoded): %s", s.id, what, df)
			}
		}
		return
	}
	rec.Count("encoded", 1)
	fm, ferr := refParse(f)
	if ferr != nil || fm.Declared != len(fm.Body) || len(fm.Body) > 1023 {
		rec.Violate(key("frame"), "%04x %s: the produced frame is not intact (%v, %d declared, %d bytes): %s", s.id, what, ferr, fm.Declared, len(fm.Body), hx(f))
		return
	}
	if fm.H.ID != s.id || fm.H.Icc != 13800138000 || fm.H.Serial != 77 {
		rec.Violate(key("frame"), "%04x %s: the produced frame has header %+v", s.id, what, fm.H)
	}
	d, err, pan := decodeEntity(s, append([]byte{}, fm.Body...))
	if pan != "" || err != nil {
		rec.Violate(key("corrupted"), "%04x %s: encoding succeeds but the frame's body does not decode: %v %s\n%s", s.id, what, err, pan, hx(f))
		return
	}
	if df := differ(e, d); df != "" {
		rec.Violate(key("corrupted"), "%04x %s: encoding succeeds but the frame decodes to something else (given / decoded): %s\n%s", s.id, what, df, hx(f))
	}
}

// bigExtra is an application-defined location extra of any size.
type bigExtra struct{ data []byte }

func (e *bigExtra) ID() byte           { return 0xe5 }
func (e *bigExtra) Data() []byte       { return e.data }
func (e *bigExtra) Value() interface{} { return string(e.data) }
func (e *bigExtra) Decode(d []byte) (int, error) {
	e.data = append([]byte{}, d...)
	return len(d), nil
}

// rawNone is a type whose nil pointer still knows its message id.
type rawNone struct{ Data []byte }

func (e *rawNone) id() uint16                   { return 0x0f11 }
func (e *rawNone) MsgID() protocol.MsgID        { return 0x0f11 }
func (e *rawNone) Encode() ([]byte, error)      { return e.Data, nil }
func (e *rawNone) Decode(b []byte) (int, error) { e.Data = append([]byte{}, b...); return len(b), nil }

func TestC06(t *testing.T) {
	extra.Register(0xe5, func() extra.Entity { return &bigExtra{} })
	r := newRand("C06", 0)
	sizes := []int{0, 1, 2, 127, 128, 253, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 600, 700, 767, 768, 900, 1000, 1010, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 2048, 65535, 65536, 65537, 65536 + 100, 65536 + 256}
	small := &gen{r: r, small: true}
	for k, s := range schemas {
		if k%shards != shard || rec.Enough() {
			continue
		}
		for rep := 0; rep < scale(6, 60); rep++ {
			e, _ := s.gen(small)
			var fixed []site
			fixedSites(s.id, "", reflect.ValueOf(e), &fixed)
			for i := range fixed {
				for n := 1; n <= 60; n++ {
					e, _ := s.gen(small)
					if strings.HasSuffix(fixed[i].path, ".Sim") { // digits
						judgeCut(s, e, i, strings.Repeat("19", n)[r.Intn(2):])
						continue
					}
					judgeCut(s, e, i, strings.Repeat("a", n%3)+strings.Repeat([]string{"b", "车", "xé车", "\u00e9"}[r.Intn(4)], n))
				}
			}
			var sites []site
			growable(s.id, "", reflect.ValueOf(e), &sites)
			n := len(sites)
			for i := 0; i < n; i++ {
				for _, size := range sizes {
					if rep%3 != 0 && size > 2000 {
						continue
					}
					if size > 60000 && !(sites[i].v.Kind() == reflect.String || sites[i].v.Type().Elem().Kind() == reflect.Uint8) && rep > 0 {
						continue
					}
					e, _ := s.gen(small)
					var again []site
					growable(s.id, "", reflect.ValueOf(e), &again)
					if i >= len(again) {
						continue
					}
					st := again[i]
					fill := []string{"a", "a", "车"}[r.Intn(3)]
					if st.v.Kind() == reflect.Slice && st.v.Len() > 0 && st.v.Type().Elem().Kind() == reflect.Struct && size > 300 {
						continue
					}
					if !st.grow(size, fill) {
						continue
					}
					rec.Count("grown_"+fmt.Sprint(st.v.Kind()), 1)
					judgeFrame(s, e, fmt.Sprintf("%s grown to %d", st.path, size))
				}
			}
		}
	}
	if shard == 0 {
		// terminal parameters of every length
		for _, id := range []uint16{0x0104, 0x8103} {
			for _, n := range sizes {
				if n > 3000 {
					continue
				}
				p := new(protocol.Param).SetBytes(0x83, rBody(r, n))
				q := new(protocol.Param).SetUint32(1, 5)
				var e protocol.Entity = &protocol.T808_0x8103{Params: []*protocol.Param{q, p}}
				if id == 0x0104 {
					e = &protocol.T808_0x0104{ReplyMsgSerialNo: 5, Params: []*protocol.Param{p, q}}
				}
				judgeFrame(schemaOf(id), e, fmt.Sprintf("parameter of %d bytes", n), n <= 255)
			}
			for _, n := range sizes {
				if n > 3000 {
					continue
				}
				var ps []*protocol.Param
				for i := 0; i < n; i++ {
					ps = append(ps, new(protocol.Param).SetBytes(uint32(i), nil))
				}
				var e protocol.Entity = &protocol.T808_0x8103{Params: ps}
				if id == 0x0104 {
					e = &protocol.T808_0x0104{Params: ps}
				}
				judgeFrame(schemaOf(id), e, fmt.Sprintf("%d parameters", n), n <= 203)
			}
		}
		// location extras
		for _, n := range sizes {
			if n > 3000 {
				continue
			}
			e, _ := schemaOf(0x0200).gen(small)
			l := e.(*protocol.T808_0x0200)
			l.Extras = []extra.Entity{extra.NewExtra_0x30(3), &bigExtra{rBody(r, n)}, extra.NewExtra_0x31(4)}
			all := func(what string, fits bool) {
				judgeFrame(schemaOf(0x0200), l, what, fits)
				judgeFrame(schemaOf(0x0201), &protocol.T808_0x0201{ReplyMsgSerialNo: 5, Result: *l}, what, fits)
				judgeFrame(schemaOf(0x0500), &protocol.T808_0x0500{ReplyMsgSerialNo: 5, Result: *l}, what, fits)
				first := *l
				first.Extras = first.Extras[:min(1, len(first.Extras))]
				judgeFrame(schemaOf(0x0704), &protocol.T808_0x0704{Type: 1, Items: []protocol.T808_0x0200{first, *l, first}}, what, fits)
			}
			all(fmt.Sprintf("extra of %d bytes", n), n <= 255)
			l.Extras = nil
			for i := 0; i < n; i++ {
				l.Extras = append(l.Extras, extra.NewExtra_0x30(byte(i)))
			}
			all(fmt.Sprintf("%d extras", n), n <= 300)
		}
	}
	// bodies of every size around the limits, plain, fragmented and encrypted
	registerRaw(0x0f10)
	for i, n := range append(sizes, 601, 602, 603, 604, 688, 689, 131072, 1<<20) {
		if i%shards != shard {
			continue
		}
		for mode := 0; mode < 4; mode++ {
			body := rBody(r, n)
			m := protocol.Message{Header: protocol.Header{IccID: rIcc(r), MsgSerialNo: rU16(r)}, Body: &rawEntity{0x0f10, body}}
			if mode == 1 {
				m.Header.Packet = &protocol.Packet{Sum: 3, Seq: 2}
			}
			var key []*rsa.PublicKey
			limit := 1023
			if mode >= 2 {
				key = []*rsa.PublicKey{&testKey().PublicKey}
				limit = 602 // seven blocks of 86 bytes
			}
			var f []byte
			var err error
			if p, st := trySafe(func() { f, err = m.Encode(key...) }); p != nil {
				rec.Violate("panic", "body of %d bytes, mode %d: encoding panics: %v\n%s", n, mode, p, st)
				continue
			}
			rec.Case(fmt.Sprintf("raw%d/%d", n, mode))
			if (err == nil) != (n <= limit) {
				rec.Violate("limit", "body of %d bytes, mode %d (limit %d): err=%v, frame of %d bytes", n, mode, limit, err, len(f))
				continue
			}
			if err != nil {
				rec.Count("refused", 1)
				continue
			}
			var d protocol.Message
			if err := d.Decode(f, testKey()); err != nil {
				rec.Violate("corrupted", "body of %d bytes, mode %d: the frame does not decode: %v", n, mode, err)
				continue
			}
			if b, ok := d.Body.(*rawEntity); !ok || !bytes.Equal(b.Data, body) {
				rec.Violate("corrupted", "body of %d bytes, mode %d: the frame decodes to another body", n, mode)
			}
			rec.Count("encoded", 1)
		}
	}
	// messages without a body
	for i := 0; i < scale(200, 4000); i++ {
		h := refHeader{ID: rU16(r), Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(3) == 0, Sum: rU16(r), Seq: rU16(r)}
		var none protocol.Entity
		if k := r.Intn(3); k == 1 {
			none = (*rawNone)(nil)
			h.ID = (*rawNone)(nil).id()
		} else if k == 2 {
			none = &rawEntity{h.ID, nil}
		}
		m := protocol.Message{Header: protocol.Header{MsgID: protocol.MsgID(h.ID), IccID: h.Icc, MsgSerialNo: h.Serial}, Body: none}
		if h.Frag {
			m.Header.Packet = &protocol.Packet{Sum: h.Sum, Seq: h.Seq}
		}
		var f []byte
		var err error
		if p, st := trySafe(func() { f, err = m.Encode() }); p != nil {
			rec.Violate("panic", "encoding a message without body (%T) panics: %v\n%s", none, p, st)
			break
		}
		rec.Case(fmt.Sprintf("none %+v %T", h, none))
		if err != nil {
			rec.Count("refused", 1)
			continue
		}
		if want := refFrame(h, nil); !bytes.Equal(f, want) {
			rec.Violate("bodyless", "a message without body (%T) is encoded as %s, not %s", none, hx(f), hx(want))
		}
		rec.Count("bodyless", 1)
	}
	// parts that are missing: refused, or encoded as if they were not there
	for i := 0; i < scale(40, 400); i++ {
		type variant struct {
			what    string
			e, same protocol.Entity
		}
		loc, _ := schemaOf(0x0200).gen(small)
		l := *loc.(*protocol.T808_0x0200)
		l.Extras = []extra.Entity{extra.NewExtra_0x30(3), extra.NewExtra_0x01(uint32(i))}
		h := l
		var none *extra.Extra_0x02
		h.Extras = []extra.Entity{none, l.Extras[0], nil, l.Extras[1], none, nil}
		up := protocol.T808_0x0801{MediaID: 5, Location: l}
		bare := l
		bare.Extras = nil
		pre := up
		pre.Location = bare
		pre.Packet = bytes.NewReader(nil)
		up.Location = bare
		ext := up
		ext.Location = l
		u16, u8, u32 := rU16(r), rByte(r), rU32(r)
		route := func(set func(p *protocol.T808_0x8606_Point)) protocol.Entity {
			p := protocol.T808_0x8606_Point{ID: 1, SectionID: uint32(i), Width: 3}
			if set != nil {
				set(&p)
			}
			return &protocol.T808_0x8606{ID: 3, StartTime: l.Time, EndTime: l.Time, Points: []protocol.T808_0x8606_Point{{ID: 7}, p, {ID: 8}}}
		}
		odd, plain := bare, bare
		odd.Extras = []extra.Entity{extra.NewExtra_0x11(extra.Extra_0x11_Value{AreaID: &u32}), l.Extras[0]}
		plain.Extras = []extra.Entity{extra.NewExtra_0x11(extra.Extra_0x11_Value{}), l.Extras[0]}
		for _, v := range []variant{
			{"location with nil extras", &h, &l},
			{"public key message without key", &protocol.T808_0x0A00{}, nil},
			{"public key message without key", &protocol.T808_0x8A00{}, nil},
			{"public key message with an empty key", &protocol.T808_0x0A00{PublicKey: new(rsa.PublicKey)}, nil},
			{"public key message with an empty key", &protocol.T808_0x8A00{PublicKey: new(rsa.PublicKey)}, nil},
			{"upload without data", &up, &pre},
			{"upload with location extras", &ext, &pre},
			{"list of uploads with location extras", &protocol.T808_0x0802{Items: []protocol.T808_0x0802_Item{{MediaID: 5, Location: l}, {MediaID: 6, Location: l}}},
				&protocol.T808_0x0802{Items: []protocol.T808_0x0802_Item{{MediaID: 5, Location: bare}, {MediaID: 6, Location: bare}}}},
			{"key of 512 bits", &protocol.T808_0x0A00{PublicKey: &key("small").PublicKey}, nil},
			{"key of 512 bits", &protocol.T808_0x8A00{PublicKey: &key("small").PublicKey}, nil},
			{"key of 2048 bits", &protocol.T808_0x0A00{PublicKey: &key("big").PublicKey}, nil},
			{"key of 2048 bits", &protocol.T808_0x8A00{PublicKey: &key("big").PublicKey}, nil},
			{"section with one of two driving times", route(func(p *protocol.T808_0x8606_Point) { p.TimeTooLong = &u16 }), route(nil)},
			{"section with one of two driving times", route(func(p *protocol.T808_0x8606_Point) { p.TimeTooShort = &u16 }), route(nil)},
			{"section with a speed but no duration", route(func(p *protocol.T808_0x8606_Point) { p.MaxSpeed = &u16 }), route(nil)},
			{"section with a duration but no speed", route(func(p *protocol.T808_0x8606_Point) { p.OverSpeedDuration = &u8 }), route(nil)},
			{"overspeed alarm without area that names one", &odd, &plain},
		} {
			m := protocol.Message{Header: protocol.Header{IccID: 1}, Body: v.e}
			if v.same == nil {
				m.Header.Property = []protocol.Property{0, 0x8000}[r.Intn(2)]
			}
			var f []byte
			var err error
			rec.Case(fmt.Sprintf("missing %s %d", v.what, i))
			if p, st := trySafe(func() { f, err = m.Encode() }); p != nil {
				rec.Violate("missing", "%s: encoding panics: %v\n%s", v.what, p, st)
				continue
			}
			rec.Count("with_missing_parts", 1)
			if err != nil {
				continue
			}
			if v.same == nil {
				rec.Violate("missing", "%s is encoded as %s", v.what, hx(f))
				continue
			}
			m2 := protocol.Message{Header: protocol.Header{IccID: 1}, Body: v.same}
			if f2, err := m2.Encode(); err != nil || !bytes.Equal(f, f2) {
				rec.Violate("missing", "%s is encoded as %s, not as %s (%v)", v.what, hx(f), hx(f2), err)
			}
		}
	}
	// headers that do not fit
	if shard == 0 {
		m := protocol.Message{Header: protocol.Header{IccID: 1, Property: 0x2000}, Body: &rawEntity{0x0f10, []byte{1, 2}}}
		var f []byte
		var err error
		rec.Case("fragment without number")
		if p, st := trySafe(func() { f, err = m.Encode() }); p != nil || err == nil {
			fm, ferr := refParse(f)
			if p != nil || ferr != nil || !bytes.Equal(fm.Body, []byte{1, 2}) {
				rec.Violate("missing", "a message marked as fragment without fragment number is encoded as %s (%v)\n%s", hx(f), p, st)
			}
		}
		for _, icc := range []uint64{999999999999, 1000000000000, 1000000000001, 12345678901234, 1<<63 + 5, 1<<64 - 1} {
			m := protocol.Message{Header: protocol.Header{IccID: icc}, Body: &rawEntity{0x0f10, nil}}
			f, err := m.Encode()
			rec.Case(fmt.Sprintf("icc%d", icc))
			if err != nil {
				if icc <= 999999999999 {
					rec.Violate("icc", "terminal number %d is refused: %v", icc, err)
				}
				continue
			}
			var d protocol.Message
			if err := d.Decode(f); err != nil || d.Header.IccID != icc {
				rec.Violate("icc", "terminal number %d is encoded as %d (%v)", icc, d.Header.IccID, err)
			}
		}
	}
}

func schemaOf(id uint16) schema {
	for _, s := range schemas {
		if s.id == id {
			return s
		}
	}
	panic("no schema")
}

// failing messages of the application
type failEntity struct{ how int }

func (e *failEntity) MsgID() protocol.MsgID { return 0x8f11 }
func (e *failEntity) Encode() ([]byte, error) {
	return []byte("part of a body"), errors.New("cannot encode")
}
func (e *failEntity) Decode(b []byte) (int, error) { return 0, nil }

// TestC06Server sends messages that do not fit through live sessions.
func TestC06Server(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(200, 600) && !rec.Enough(); i++ {
			refuseScenario(i)
		}
	})
}

func refuseScenario(i int) {
	r := newRand("C06S", i)
	w := newWorld(go808.Options{})
	got := make(chan *go808.Session, 100)
	w.srv.AddHandler(protocol.MsgT808_0x0002, func(s *go808.Session, m *protocol.Message) { got <- s })
	w.mustStart()
	n := 1 + r.Intn(3)
	var ts []*terminal
	var ss []*go808.Session
	for k := 0; k < n; k++ {
		t := w.terminal(newIcc())
		t.send(2, nil)
		ts = append(ts, t)
		ss = append(ss, <-got)
	}
	settle()
	wild := func() protocol.Entity {
		switch r.Intn(7) {
		case 0:
			return &rawEntity{0x8f10, rBody(r, 1024+r.Intn(3)*65536+r.Intn(500))}
		case 1:
			return &failEntity{}
		case 2:
			return &protocol.T808_0x8300{Text: strings.Repeat("x", 1023+r.Intn(500))}
		case 3:
			var ps []*protocol.Param
			for k := 0; k < 256+r.Intn(60); k++ {
				ps = append(ps, new(protocol.Param).SetByte(uint32(k), 1))
			}
			return &protocol.T808_0x8103{Params: ps}
		case 4:
			return &protocol.T808_0x8103{Params: []*protocol.Param{new(protocol.Param).SetBytes(1, rBody(r, 256+r.Intn(400)))}}
		case 5:
			return &protocol.T808_0x8300{Text: strings.Repeat("车", 70000)}
		}
		return &protocol.T808_0x8A00{}
	}
	want := make([]int, n)
	for step := 0; step < 20; step++ {
		k := r.Intn(n)
		before := len(ts[k].c.Out())
		e := wild()
		called := 0
		var err error
		kind := r.Intn(3)
		cnt := 0
		p, st := trySafe(func() {
			switch kind {
			case 0:
				_, err = ss[k].Send(e)
			case 1:
				_, err = ss[k].Request(e, func(*protocol.Message) { called++ })
			case 2:
				cnt = w.srv.Broadcast(e)
			}
		})
		settle()
		rec.Case(fmt.Sprintf("%T/%d/%d", e, kind, step))
		rec.Count("refusals", 1)
		if p != nil {
			rec.Violate("send-panic", "sending %T panics: %v\n%s", e, p, st)
			break
		}
		if kind < 2 && err == nil {
			rec.Violate("send-accepted", "scenario %d: sending a %T that cannot be encoded reports no error", i, e)
		}
		if kind == 2 && cnt != 0 {
			rec.Violate("broadcast-accepted", "scenario %d: broadcasting a %T that cannot be encoded reports %d recipients", i, e, cnt)
		}
		for j, t := range ts {
			if j == k && len(t.c.Out()) != before {
				rec.Violate("sent", "scenario %d: %T cannot be encoded but %s was sent", i, e, hx(t.c.Out()[before:]))
			}
			if c, _ := t.c.Closed(); c {
				rec.Violate("closed", "scenario %d: the session was closed after sending a %T that cannot be encoded", i, e)
			}
		}
		// still usable
		if s, ok := w.srv.GetSession(ss[k].ID()); !ok || s != ss[k] {
			rec.Violate("lost", "scenario %d: the session is gone after a refused message", i)
			break
		}
		j := r.Intn(n)
		body := rBody(r, rLen(r, 1023))
		serial, err := ss[j].Send(&rawEntity{0x8f10, body})
		if err != nil {
			rec.Violate("unusable", "scenario %d: sending a message that fits fails after a refused one: %v", i, err)
			break
		}
		settle()
		want[j]++
		ms, ok := ts[j].got()
		if !ok {
			break
		}
		if len(ms) != want[j] || ms[len(ms)-1].H.Serial != serial || !bytes.Equal(ms[len(ms)-1].Body, body) {
			rec.Violate("unusable", "scenario %d: after a refused message the terminal got %d messages, want %d, the last one %s", i, len(ms), want[j], hx(body))
			break
		}
		rec.Count("sends_after_refusal", 1)
	}
	w.end()
}
