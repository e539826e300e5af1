package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"gitee.com/coco/go808/protocol"
	"golang.org/x/text/encoding/simplifiedchinese"
)

// The reader and the writer that message types - the built-in ones and those
// of an application - are built with, next to a model of them.

func TestC28(t *testing.T) {
	for i := 0; i < scale(6000, 200000)/shards && !rec.Enough(); i++ {
		// several at the same time: they have nothing to do with each other
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				bodyScenario(newRand("C28", i*4+k), fmt.Sprintf("scenario %d/%d", i, k))
			}()
		}
		wg.Wait()
		progress.Add(1)
	}
	for i := 0; i < scale(40000, 1000000)/shards && !rec.Enough(); i++ {
		dateCase(newRand("C28date", i))
	}
}

type bodyItem struct {
	kind string
	size int // of a fixed width, or -1
	v    uint32
	b    []byte
	s    string
	t    time.Time
	enc  []byte // what it is in the body
}

func fixed(b []byte, n int) []byte {
	if n < 0 {
		return b
	}
	out := make([]byte, n)
	copy(out, b)
	return out
}

func bodyScenario(r *rand.Rand, name string) {
	defer func() {
		if e := recover(); e != nil {
			rec.Violate("panic", "%s: panics: %v", name, e)
		}
	}()
	g := &gen{r: r}
	var items []bodyItem
	for n := r.Intn(12); n >= 0; n-- {
		it := bodyItem{size: -1}
		if r.Intn(2) == 0 {
			it.size = []int{0, 1, 2, 5, 7, 20, r.Intn(300)}[r.Intn(7)]
		}
		switch r.Intn(7) {
		case 0:
			it.kind, it.v, it.size = "byte", uint32(r.Intn(256)), -1
			it.enc = []byte{byte(it.v)}
		case 1:
			it.kind, it.v, it.size = "uint16", uint32(rU16(r)), -1
			it.enc = u16b(uint16(it.v))
		case 2:
			it.kind, it.v, it.size = "uint32", r.Uint32()>>uint(r.Intn(32)), -1
			it.enc = u32b(it.v)
		case 3:
			it.kind, it.b = "bytes", randBytes(r, r.Intn([]int{2, 20, 400}[r.Intn(3)]))
			it.enc = fixed(it.b, it.size)
		case 4:
			it.kind, it.s = "text", g.text([]int{2, 20, 400}[r.Intn(3)])
			it.enc = fixed(gbk(it.s), it.size)
		case 5:
			it.kind, it.size = "time", -1
			it.t = time.Date(2000+r.Intn(100), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(2)*r.Intn(1e9), time.Local)
			if r.Intn(5) == 0 {
				it.t = []time.Time{
					time.Date(2000, 1, 1, 0, 0, 0, 0, time.Local), time.Date(2099, 12, 31, 23, 59, 59, 999999999, time.Local),
					time.Date(2024, 2, 29, 12, 0, 0, 0, time.Local), time.Date(2000, 2, 29, 9, 8, 7, 0, time.Local),
				}[r.Intn(4)]
			}
			l := it.t
			if r.Intn(4) == 0 && l.Year() > 2000 && l.Year() < 2099 { // the same moment in the clothes of another zone
				it.t = l.In(time.FixedZone("x", 3600*(r.Intn(25)-12)))
			}
			for _, q := range []int{l.Year() % 100, int(l.Month()), l.Day(), l.Hour(), l.Minute(), l.Second()} {
				it.enc = append(it.enc, byte(q/10<<4|q%10))
			}
		case 6:
			it.kind, it.v, it.size = "size", uint32(r.Intn(256)), -1
			if r.Intn(3) == 0 {
				it.v = []uint32{256, 257, 511, 512, 65536, 1 << 20, 255, 0}[r.Intn(8)]
			}
			if it.v < 256 {
				it.enc = []byte{byte(it.v)}
			}
		}
		items = append(items, it)
	}

	// write
	w := protocol.NewWriter()
	other := protocol.NewWriter() // used in between, nobody else's business
	other.WriteUint32(0xdeadbeef)
	var want []byte
	for k, it := range items {
		switch it.kind {
		case "byte":
			w.WriteByte(byte(it.v))
		case "uint16":
			w.WriteUint16(uint16(it.v))
		case "uint32":
			w.WriteUint32(it.v)
		case "bytes":
			b := append([]byte{}, it.b...)
			if it.size < 0 {
				w.Write(b)
			} else {
				w.Write(b, it.size)
			}
			if !bytes.Equal(b, it.b) {
				rec.Violate("argument", "%s: writing changes what it is given", name)
			}
			for x := range b {
				b[x] ^= 0xff
			}
		case "text":
			var err error
			if it.size < 0 {
				err = w.WritString(it.s)
			} else {
				err = w.WritString(it.s, it.size)
			}
			if err != nil {
				rec.Violate("text", "%s: writing the text %q fails: %v", name, it.s, err)
				return
			}
		case "time":
			w.WriteBcdTime(it.t)
		case "size":
			err := w.WriteSize(int(it.v))
			if (err == nil) != (it.v < 256) {
				rec.Violate("size", "%s: writing the length %d: %v", name, it.v, err)
				return
			}
			if err != nil {
				rec.Count("sizes_refused", 1)
			}
		}
		want = append(want, it.enc...)
		rec.Case(fmt.Sprintf("%s/%d/%x", it.kind, it.size, it.enc))
		rec.Count("written_"+it.kind, 1)
		if k%4 == 0 || k == len(items)-1 {
			if got := w.Bytes(); !bytes.Equal(got, want) {
				rec.Violate("written", "%s: after %s (width %d) the body is %s, should be %s", name, it.kind, it.size, hx(got), hx(want))
				return
			}
		}
	}
	if got := other.Bytes(); !bytes.Equal(got, []byte{0xde, 0xad, 0xbe, 0xef}) {
		rec.Violate("mixed", "%s: another writer's body is %s", name, hx(got))
	}

	// read
	data := append([]byte{}, want...)
	if len(data) > 0 && r.Intn(3) == 0 {
		data = data[:r.Intn(len(data))] // cut short
	}
	keep := append([]byte{}, data...)
	rd := protocol.NewReader(data)
	rd2 := protocol.NewReader([]byte{1, 2, 3, 4, 5, 6, 7, 8})
	pos := 0
	check := func(what string, ok bool, err error, size int) bool {
		if size > len(data)-pos {
			rec.Count("reads_past_the_end", 1)
			if err == nil {
				rec.Violate("past-the-end", "%s: reading %s of %d bytes with %d left succeeds", name, what, size, len(data)-pos)
				return false
			}
			return true
		}
		if err != nil || !ok {
			rec.Violate("read", "%s: reading %s at %d of %s gives another value or fails: %v", name, what, pos, hx(data), err)
			return false
		}
		pos += size
		if rd.Len() != len(data)-pos {
			rec.Violate("length", "%s: after reading %s %d bytes are left, should be %d", name, what, rd.Len(), len(data)-pos)
			return false
		}
		rec.Count("read_"+what, 1)
		return true
	}
	for _, it := range items {
		if it.kind == "size" && it.v > 255 {
			continue
		}
		if rd.Len() != len(data)-pos {
			rec.Violate("length", "%s: %d bytes are left, should be %d", name, rd.Len(), len(data)-pos)
			return
		}
		if r.Intn(4) == 0 { // more than there is
			var err error
			size := len(data) - pos + 1 + r.Intn(5)
			probe := protocol.NewReader(data[pos:])
			if r.Intn(2) == 0 {
				_, err = probe.Read(size)
			} else {
				_, err = probe.ReadString(size)
			}
			if !check("too much", true, err, size) {
				return
			}
		}
		if r.Intn(4) == 0 {
			rd2.ReadByte()
		}
		ok, size := true, len(it.enc)
		var err error
		switch it.kind {
		case "byte", "size":
			var v byte
			v, err = rd.ReadByte()
			ok = uint32(v) == it.v
		case "uint16":
			var v uint16
			v, err = rd.ReadUint16()
			ok = uint32(v) == it.v
		case "uint32":
			var v uint32
			v, err = rd.ReadUint32()
			ok = v == it.v
		case "bytes":
			var v []byte
			v, err = rd.Read(size)
			ok = bytes.Equal(v, it.enc)
		case "text":
			var v string
			v, err = rd.ReadString(size)
			want := it.s
			if len(gbk(it.s)) > size { // cut to the width
				d, _ := simplifiedchinese.GB18030.NewDecoder().Bytes(it.enc)
				want = string(d)
			}
			ok = v == want
		case "time":
			var v time.Time
			v, err = rd.ReadBcdTime()
			ok = v.Unix() == it.t.Unix()
		}
		if !check(it.kind, ok, err, size) {
			return
		}
		if err != nil { // refused: nothing is promised about this reader any more
			if !bytes.Equal(data, keep) {
				rec.Violate("data", "%s: reading changes the data", name)
			}
			return
		}
	}
	rest, err := rd.Read()
	if err != nil || !bytes.Equal(rest, data[pos:]) || rd.Len() != 0 {
		rec.Violate("rest", "%s: the rest is %s (%v), should be %s", name, hx(rest), err, hx(data[pos:]))
	}
	if !bytes.Equal(data, keep) {
		rec.Violate("data", "%s: reading changes the data", name)
	}
	if v, err := rd.Read(); err != nil || len(v) != 0 {
		rec.Violate("rest", "%s: at the end the rest is %s (%v)", name, hx(v), err)
	}
	if _, err := rd.ReadByte(); err == nil {
		rec.Violate("past-the-end", "%s: a byte is read at the end", name)
	}
	if s, err := rd.ReadString(); err != nil || s != "" {
		rec.Violate("rest", "%s: at the end the text is %q (%v)", name, s, err)
	}
	rec.Sample("%s: %d items, %s", name, len(items), hx(want))
}

// dateCase: six bytes are a date and time or they are refused.
func dateCase(r *rand.Rand) {
	d := func(n int) byte { return byte(n/10<<4 | n%10) }
	b := []byte{d(r.Intn(100)), d(r.Intn(14)), d(r.Intn(33)), d(r.Intn(26)), d(r.Intn(62)), d(r.Intn(62))}
	switch r.Intn(6) {
	case 0:
		b[r.Intn(6)] = byte(r.Intn(256))
	case 1:
		b[1], b[2] = d(2), d(28+r.Intn(3))
	case 2:
		b[1], b[2] = d([]int{4, 6, 9, 11, 1, 12}[r.Intn(6)]), d(30+r.Intn(3))
	}
	n := make([]int, 6)
	valid := true
	for i, x := range b {
		if x>>4 > 9 || x&15 > 9 {
			valid = false
		}
		n[i] = int(x>>4)*10 + int(x&15)
	}
	days := []int{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if valid {
		y := 2000 + n[0]
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			days[2] = 29
		}
		valid = n[1] >= 1 && n[1] <= 12 && n[3] < 24 && n[4] < 60 && n[5] < 60
		valid = valid && n[2] >= 1 && n[2] <= days[n[1]]
	}
	rd := protocol.NewReader(append([]byte{}, b...))
	t, err := rd.ReadBcdTime()
	rec.Case(fmt.Sprintf("date/%x", b))
	if !valid {
		rec.Count("dates_refused", 1)
		if err == nil {
			rec.Violate("date", "%x is read as %v", b, t)
		}
		return
	}
	l := t.Local()
	if err != nil || l.Year() != 2000+n[0] || int(l.Month()) != n[1] || l.Day() != n[2] || l.Hour() != n[3] || l.Minute() != n[4] || l.Second() != n[5] {
		rec.Violate("date", "%x is read as %v (%v)", b, t, err)
		return
	}
	w := protocol.NewWriter()
	w.WriteBcdTime(t)
	if !bytes.Equal(w.Bytes(), b) {
		rec.Violate("date", "%x is read as %v, which is written as %x", b, t, w.Bytes())
	}
	rec.Count("dates", 1)
}
