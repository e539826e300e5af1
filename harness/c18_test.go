package harness

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sync"
	"testing"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// Reference of the encrypted body: blocks of RSA-OAEP(SHA-1), one after another.

func refEncrypt(pub *rsa.PublicKey, body []byte, block int) []byte {
	max := (pub.N.BitLen()+7)/8 - 2*sha1.Size - 2
	if block <= 0 || block > max {
		block = max
	}
	var out []byte
	for len(body) > 0 {
		n := block
		if n > len(body) {
			n = len(body)
		}
		c, err := rsa.EncryptOAEP(sha1.New(), rand.Reader, pub, body[:n], nil)
		if err != nil {
			panic(err)
		}
		out = append(out, c...)
		body = body[n:]
	}
	return out
}

func refDecrypt(priv *rsa.PrivateKey, c []byte) ([]byte, error) {
	var out []byte
	for len(c) > 0 {
		n := (priv.N.BitLen() + 7) / 8
		if n > len(c) {
			n = len(c)
		}
		p, err := rsa.DecryptOAEP(sha1.New(), rand.Reader, priv, c[:n], nil)
		if err != nil {
			return nil, err
		}
		out = append(out, p...)
		c = c[n:]
	}
	return out, nil
}

const idSecret = 0x0f18

// plainBody is a body that is easily recognised in what is sent.
func plainBody(r *mrand.Rand, n int) []byte {
	switch r.Intn(4) {
	case 0:
		return bytes.Repeat([]byte{byte(r.Intn(256))}, n)
	case 1:
		return bytes.Repeat([]byte{0x7e, 0x7d, 0x01, 0x02}, n/4+1)[:n]
	}
	return randBytes(r, n)
}

func fits(k *rsa.PrivateKey, n int) bool {
	size := (k.N.BitLen() + 7) / 8
	max := size - 2*sha1.Size - 2
	return max > 0 && (n+max-1)/max*size <= 1023
}

func TestC18(t *testing.T) {
	registerRaw(idSecret)
	r := newRand("C18", 0)
	names := []string{"a", "b", "c", "big", "odd", "odd2", "small"}
	// every size of body with every key, judged by the reference
	for n := 0; n <= 1023+300; n++ {
		if n%shards != shard || rec.Enough() {
			continue
		}
		for q, name := range names {
			if !thorough && name != "a" && n > 3 && (n+q)%7 != 0 && n != 602 && n != 603 {
				continue
			}
			encryptOne(r, name, n)
		}
	}
	for i := 0; i < scale(250, 8000) && !rec.Enough(); i++ {
		decryptOne(newRand("C18dec", i), i)
	}
	for i := 0; i < scale(60, 1500) && !rec.Enough(); i++ {
		codecSend(newRand("C18send", i), i)
	}
	serverKeys()
	tinyKeys(r)
}

// tinyKeys: keys too small to encrypt anything; such a key can come from a terminal.
func tinyKeys(r *mrand.Rand) {
	for bits := 2; bits <= 42*8; bits += 1 + r.Intn(4) {
		n := new(big.Int).SetBytes(randBytes(r, (bits+7)/8))
		n.SetBit(n, 0, 1)
		if n.BitLen() > 42*8 {
			continue
		}
		k := &rsa.PublicKey{N: n, E: []int{3, 65537, 1, 0, 2}[r.Intn(5)]}
		body := plainBody(r, 1+r.Intn(60))
		m := protocol.Message{Header: protocol.Header{IccID: 1, MsgSerialNo: 2}, Body: &rawEntity{idSecret, body}}
		var f []byte
		var err error
		p, st := trySafe(func() { f, err = m.Encode(k) })
		rec.Case(fmt.Sprintf("tiny %x %d", n, len(body)))
		if p != nil {
			rec.Violate("panic", "encrypting for a key of %d bits panics: %v\n%s", n.BitLen(), p, st)
			return
		}
		if err == nil {
			rec.Violate("tiny", "a body of %d bytes is accepted for encryption with a key of %d bits: %s", len(body), n.BitLen(), hx(f))
		}
		rec.Count("tiny_keys_refused", 1)
	}
}

func encryptOne(r *mrand.Rand, name string, n int) {
	k := key(name)
	body := plainBody(r, n)
	h := refHeader{ID: idSecret, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(4) == 0, Sum: rU16(r), Seq: rU16(r), Encrypt: true}
	m := protocol.Message{Header: protocol.Header{IccID: h.Icc, MsgSerialNo: h.Serial}, Body: &rawEntity{idSecret, append([]byte{}, body...)}}
	if h.Frag {
		m.Header.Packet = &protocol.Packet{Sum: h.Sum, Seq: h.Seq}
	}
	if r.Intn(2) == 0 {
		m.Header.Property = 0x400 // also when the caller already asked for it
	}
	what := fmt.Sprintf("body of %d bytes, key %s (%d bits)", n, name, k.N.BitLen())
	var f []byte
	var err error
	if p, st := trySafe(func() { f, err = m.Encode(&k.PublicKey) }); p != nil {
		rec.Violate("panic", "%s: encoding panics: %v\n%s", what, p, st)
		return
	}
	rec.Case(what)
	if err != nil {
		rec.Count("refused", 1)
		if fits(k, n) && n > 0 {
			rec.Violate("refused", "%s: refused although it fits: %v", what, err)
		}
		return
	}
	if n > 0 && !fits(k, n) {
		rec.Violate("oversize", "%s: accepted although it does not fit", what)
		return
	}
	fr, err := refParse(f)
	if err != nil || fr.Declared != len(fr.Body) {
		rec.Violate("frame", "%s: the encrypted frame is not intact: %v, declared %d, has %d bytes", what, err, fr.Declared, len(fr.Body))
		return
	}
	if !fr.H.Encrypt {
		rec.Violate("not-marked", "%s: the frame is not marked encrypted", what)
	}
	if n >= 8 && (bytes.Contains(fr.Body, body) || bytes.Contains(fr.Body, body[:8]) && name != "small") {
		rec.Violate("plain", "%s: the frame contains the plain body", what)
	}
	plain, err := refDecrypt(k, fr.Body)
	if err != nil || !bytes.Equal(plain, body) {
		rec.Violate("ciphertext", "%s: the reference decrypts to %d bytes (%v), not to the body", what, len(plain), err)
		return
	}
	rec.Count("encrypted", 1)
	var d protocol.Message
	err = d.Decode(f, k)
	b, ok := d.Body.(*rawEntity)
	if err != nil || !ok || !bytes.Equal(b.Data, body) {
		rec.Violate("roundtrip", "%s: the encrypted frame decodes with the matching key to err=%v body=%v", what, err, d.Body)
		return
	}
	if s := sameHeader(d.Header, h, fr.Declared); s != "" && n > 0 {
		rec.Violate("header", "%s: %s", what, s)
	}
	rec.Count("decrypted", 1)
	// the same entity encrypted twice must not give what the other gave
	if e, ok := m.Body.(*rawEntity); ok && !bytes.Equal(e.Data, body) {
		rec.Violate("input-changed", "%s: encrypting changed the entity", what)
	}
	if n > 0 {
		for _, o := range []string{"a", "b", "c", "big"} {
			if o == name {
				continue
			}
			refuse(f, what+" decrypted with key "+o, key(o))
			if !thorough {
				break
			}
		}
		refuse(f, what+" decrypted without key")
		refuse(f, what+" decrypted with a nil key", nil)
	}
}

// refuse: the frame must not decode to a body.
func refuse(f []byte, what string, keys ...*rsa.PrivateKey) {
	m := protocol.Message{}
	var err error
	if p, st := trySafe(func() { err = m.Decode(f, keys...) }); p != nil {
		rec.Violate("panic", "%s: decoding panics: %v\n%s", what, p, st)
		return
	}
	rec.Count("refused_decryptions", 1)
	if err == nil {
		rec.Violate("no-error", "%s: decodes without error, body %v", what, m.Body)
	} else if m.Body != nil {
		rec.Violate("body", "%s: gives error %v and nevertheless a body %v", what, err, m.Body)
	}
}

// decryptOne gives the decoder frames encrypted by the reference, intact and altered.
func decryptOne(r *mrand.Rand, i int) {
	name := []string{"a", "a", "a", "b", "c", "big"}[r.Intn(6)]
	k := key(name)
	n := r.Intn(500)
	block := 0
	if r.Intn(2) == 0 {
		n = r.Intn(200)
		block = 60 + r.Intn(40)
	}
	body := plainBody(r, n)
	id := uint16(idSecret)
	ct := refEncrypt(&k.PublicKey, body, block)
	if len(ct) > 1023 {
		return
	}
	h := refHeader{ID: id, Icc: rIcc(r), Serial: rU16(r), Frag: r.Intn(4) == 0, Sum: rU16(r), Seq: rU16(r), Encrypt: true}
	f := refFrame(h, ct)
	what := fmt.Sprintf("case %d: body of %d bytes encrypted for key %s in blocks of %d", i, n, name, block)
	rec.Case(what)
	var d protocol.Message
	err := d.Decode(f, k)
	b, ok := d.Body.(*rawEntity)
	if err != nil || !ok || !bytes.Equal(b.Data, body) {
		rec.Violate("decrypt", "%s: decodes to err=%v body=%v, should be %s", what, err, d.Body, hx(body))
		return
	}
	rec.Count("decrypted", 1)
	if n == 0 {
		return
	}
	// the same frame after a message with body was decoded into the same variable must not leave the old body
	sz := (k.N.BitLen() + 7) / 8
	for q := 0; q < 6; q++ {
		a := append([]byte{}, ct...)
		kind := ""
		switch r.Intn(8) {
		case 0:
			p := r.Intn(len(a))
			a[p] ^= 1 << r.Intn(8)
			kind = fmt.Sprintf("bit of byte %d of %d flipped", p, len(a))
		case 1:
			p := r.Intn(len(a)/sz) * sz
			copy(a[p:p+sz], randBytes(r, sz))
			kind = "a block replaced by random bytes"
		case 2:
			a = a[:len(a)-1-r.Intn(sz-1)]
			kind = "truncated within the last block"
		case 3:
			a = append(a, randBytes(r, 1+r.Intn(minInt(sz, 1023-len(a))))...)
			kind = "bytes appended"
		case 4:
			a = append([]byte{}, body...)
			kind = "the plain body instead"
		case 5:
			a = make([]byte, len(a))
			kind = "zeros instead"
		case 6:
			o := "b"
			if name == "b" {
				o = "a"
			}
			c2 := refEncrypt(&key(o).PublicKey, body[:minInt(len(body), 80)], 0)
			a = append(append([]byte{}, a...), c2...)
			kind = "a block for another key appended"
		case 7:
			c, _ := rsa.EncryptPKCS1v15(rand.Reader, &k.PublicKey, body[:minInt(len(body), 80)])
			a = c
			kind = "encrypted with PKCS#1 v1.5 padding"
		}
		if len(a) > 1023 || bytes.Equal(a, ct) {
			continue
		}
		if _, err := refDecrypt(k, a); err == nil {
			continue // (cannot happen except with negligible probability)
		}
		refuse(refFrame(h, a), what+", "+kind, k)
		rec.Case(fmt.Sprintf("%s/%s/%d", what, kind, q))
	}
	// marked encrypted, sealed properly, but wrong key type
	refuse(f, what+", server has another key", key(map[bool]string{true: "b", false: "a"}[name == "a" || name == "big"]))
}

// codecSend: the codec of a connection encrypts what is marked when it has a key.
func codecSend(r *mrand.Rand, i int) {
	name := []string{"a", "b", "c", "big"}[r.Intn(4)]
	k := key(name)
	pipe := &bytes.Buffer{}
	cd, err := go808.Protocol{}.NewCodec(pipe)
	if err != nil {
		rec.Violate("codec", "NewCodec: %v", err)
		return
	}
	codec := cd.(*go808.ProtocolCodec)
	hasKey := r.Intn(4) != 0
	if hasKey {
		codec.SetPublicKey(&k.PublicKey)
		if codec.GetPublicKey() == nil || codec.GetPublicKey().N.Cmp(k.N) != 0 {
			rec.Violate("codec-key", "the key that was set is not returned")
		}
	}
	for q := 0; q < 5; q++ {
		if r.Intn(4) == 0 { // the terminal presents another key, or the key is withdrawn
			k = key([]string{"a", "b", "c", "big"}[r.Intn(4)])
			if hasKey = r.Intn(4) != 0; hasKey {
				codec.SetPublicKey(&k.PublicKey)
			} else {
				codec.SetPublicKey(nil)
			}
			if got := codec.GetPublicKey(); (got != nil) != hasKey || hasKey && got.N.Cmp(k.N) != 0 {
				rec.Violate("codec-key", "the key that was set last is not returned")
			}
			rec.Count("keys_changed", 1)
		}
		body := plainBody(r, 1+r.Intn(300))
		if r.Intn(3) == 0 {
			body = plainBody(r, 1+r.Intn(3))
		}
		marked := r.Intn(2) == 0
		m := protocol.Message{Header: protocol.Header{IccID: rIcc(r), MsgSerialNo: rU16(r)}, Body: &rawEntity{idSecret, body}}
		if marked {
			m.Header.Property = 0x400
		}
		if r.Intn(3) == 0 {
			m.Header.Packet = &protocol.Packet{Sum: rU16(r), Seq: rU16(r)}
			if r.Intn(2) == 0 {
				m.Header.Property |= 0x2000
			}
		}
		pipe.Reset()
		err := codec.Send(m)
		what := fmt.Sprintf("case %d: message of %d bytes, to be encrypted %v, key set %v", i, len(body), marked, hasKey)
		rec.Case(fmt.Sprintf("send/%d/%d/%v/%v", i, q, marked, hasKey))
		if marked && !hasKey {
			if err == nil {
				fr, e := refParse(pipe.Bytes())
				if e != nil || bytes.Contains(fr.Body, body) || fr.H.Encrypt {
					rec.Violate("marked-plain", "%s: sent as plain text or marked encrypted without being so", what)
				}
			} else if pipe.Len() > 0 {
				rec.Violate("send-error", "%s: fails (%v) but %d bytes were sent", what, err, pipe.Len())
			}
			rec.Count("no_key_refused", 1)
			continue
		}
		if err != nil {
			rec.Violate("send", "%s: fails: %v", what, err)
			continue
		}
		fr, e := refParse(pipe.Bytes())
		if e != nil || fr.Declared != len(fr.Body) {
			rec.Violate("frame", "%s: frame not intact: %v", what, e)
			continue
		}
		if fr.H.Encrypt != marked {
			rec.Violate("mark", "%s: sent frame marked encrypted: %v", what, fr.H.Encrypt)
			continue
		}
		plain := fr.Body
		if marked {
			if plain, err = refDecrypt(k, fr.Body); err != nil {
				rec.Violate("ciphertext", "%s: cannot be decrypted: %v", what, err)
				continue
			}
		}
		if !bytes.Equal(plain, body) {
			rec.Violate("roundtrip", "%s: other body", what)
		}
		rec.Count("codec_sends", 1)
	}
}

func serverKeys() {
	for _, name := range []string{"a", "b", "c", "big", "odd", "odd2", "small", ""} {
		var k *rsa.PrivateKey
		if name != "" {
			k = key(name)
		}
		srv, err := go808.NewServer(go808.Options{PrivateKey: k})
		want := k == nil || k.N.BitLen() == 1024
		rec.Case("server/" + name)
		if (err == nil) != want {
			rec.Violate("server-key", "a server with key %q: %v", name, err)
		}
		if err != nil && srv != nil {
			rec.Violate("server-key", "a server with key %q is refused but returned", name)
		}
		if err == nil && srv.GetPrivateKey() != k {
			rec.Violate("server-key", "the server returns another private key than it was given")
		}
	}
}

func TestC18Server(t *testing.T) {
	registerRaw(idSecret)
	bubble(t, func() {
		for i := 0; i < scale(60, 1500) && !rec.Enough(); i++ {
			secretScenario(i)
		}
	})
}

func sameKey(a, b *rsa.PublicKey) bool {
	return a == nil && b == nil || a != nil && b != nil && a.E == b.E && a.N.Cmp(b.N) == 0
}

func secretScenario(i int) {
	r := newRand("C18Server", i)
	var k *rsa.PrivateKey
	name := []string{"a", "b", "c", ""}[r.Intn(4)]
	other := "b"
	if name == "b" {
		other = "c"
	}
	if name != "" {
		k = key(name)
	}
	w := newWorld(go808.Options{Keepalive: 3600, PrivateKey: k})
	defer w.end()
	var mu sync.Mutex
	got := map[uint64][]string{}
	keys := map[uint64]*rsa.PublicKey{} // per session
	back := map[uint64][][]byte{}       // sent by the platform
	backKey := map[uint64][]*rsa.PublicKey{}
	kr := mrand.New(mrand.NewSource(r.Int63()))
	w.srv.AddHandler(idSecret, func(s *go808.Session, m *protocol.Message) {
		e, ok := m.Body.(*rawEntity)
		mu.Lock()
		defer mu.Unlock()
		if !ok {
			got[m.Header.IccID] = append(got[m.Header.IccID], "?")
			return
		}
		got[m.Header.IccID] = append(got[m.Header.IccID], fmt.Sprintf("%v:%x", m.Header.Property.IsEnableEncrypt(), e.Data))
		rec.Count("delivered", 1)
		// the key of the terminal belongs to its session
		if g := s.GetPublicKey(); !sameKey(g, keys[s.ID()]) {
			rec.Violate("session-key", "scenario %d: the session returns another public key than was set for it", i)
		}
		if kr.Intn(4) == 0 {
			switch kr.Intn(4) {
			case 0:
				delete(keys, s.ID())
				s.SetPublicKey(nil)
			default:
				q := &key([]string{"a", "b", "c", "big"}[kr.Intn(4)]).PublicKey
				keys[s.ID()] = q
				s.SetPublicKey(q)
			}
			rec.Count("session_keys_set", 1)
		}
		if kr.Intn(4) == 0 {
			b := plainBody(kr, 1+kr.Intn(200))
			back[m.Header.IccID] = append(back[m.Header.IccID], b)
			backKey[m.Header.IccID] = append(backKey[m.Header.IccID], keys[s.ID()])
			if _, err := s.Send(&rawEntity{0x8f44, b}); err != nil {
				rec.Violate("send", "scenario %d: the platform's message of %d bytes is refused: %v", i, len(b), err)
			}
			rec.Count("sent_back", 1)
		}
	})
	w.mustStart()
	jitterHooks(w, r, 40)
	n := 1 + r.Intn(3)
	var ts []*terminal
	want := map[uint64][]string{}
	dead := map[uint64]bool{}
	for q := 0; q < n; q++ {
		ts = append(ts, w.terminal(newIcc()))
	}
	for step := 0; step < 25; step++ {
		t := ts[r.Intn(n)]
		if dead[t.icc] {
			continue
		}
		body := plainBody(r, r.Intn(200))
		h := refHeader{ID: idSecret, Icc: t.icc, Serial: t.next()}
		rec.Case(fmt.Sprintf("server/%d/%d/%x", i, step, body))
		switch kind := r.Intn(20); {
		case kind < 9:
			t.c.PeerSend(chop(r, refFrame(h, body))...)
			want[t.icc] = append(want[t.icc], fmt.Sprintf("false:%x", body))
		case kind < 18 && k != nil:
			h.Encrypt = true
			t.c.PeerSend(chop(r, refFrame(h, refEncrypt(&k.PublicKey, body, 0)))...)
			want[t.icc] = append(want[t.icc], fmt.Sprintf("true:%x", body))
		case len(body) > 0:
			// must never be delivered
			h.Encrypt = true
			ct := refEncrypt(&key(other).PublicKey, body, 0)
			switch r.Intn(3) {
			case 0:
				ct = body
			case 1:
				if k != nil {
					ct = refEncrypt(&k.PublicKey, body, 0)
					ct[r.Intn(len(ct))] ^= 1 << r.Intn(8)
				}
			}
			t.c.PeerSend(refFrame(h, ct))
			dead[t.icc] = true
			rec.Count("undecryptable", 1)
		}
		if r.Intn(4) == 0 {
			settle()
		}
	}
	settle()
	for _, t := range ts {
		mu.Lock()
		g := append([]string{}, got[t.icc]...)
		mu.Unlock()
		ws := want[t.icc]
		if len(g) < len(ws) {
			rec.Violate("lost", "scenario %d (key %q): %d of %d messages delivered", i, name, len(g), len(ws))
			continue
		}
		for q := range ws {
			if g[q] != ws[q] {
				rec.Violate("content", "scenario %d (key %q): message %d delivered as %s, sent as %s", i, name, q, g[q], ws[q])
				break
			}
		}
		if len(g) > len(ws) {
			rec.Violate("extra", "scenario %d (key %q): delivered although it was not sent or cannot be decrypted: %s", i, name, g[len(ws)])
		}
		msgs, _ := t.got()
		for _, m := range msgs {
			if m.H.ID == 0x8f44 && len(back[t.icc]) > 0 {
				b, k := back[t.icc][0], backKey[t.icc][0]
				back[t.icc], backKey[t.icc] = back[t.icc][1:], backKey[t.icc][1:]
				plain := m.Body
				if m.H.Encrypt {
					plain = nil
					for _, name := range []string{"a", "b", "c", "big"} {
						if sameKey(&key(name).PublicKey, k) {
							plain, _ = refDecrypt(key(name), m.Body)
						}
					}
				}
				if !bytes.Equal(plain, b) {
					rec.Violate("sent", "scenario %d: the platform's message %s arrives as %s (marked encrypted: %v)", i, hx(b), hx(m.Body), m.H.Encrypt)
				}
				continue
			}
			if _, ok := parseReply(m); !ok {
				rec.Violate("reply", "scenario %d: unexpected message 0x%04x", i, m.H.ID)
			}
		}
		if n := len(back[t.icc]); n > 0 && !dead[t.icc] {
			rec.Violate("sent", "scenario %d: %d messages of the platform did not arrive", i, n)
		}
	}
}
