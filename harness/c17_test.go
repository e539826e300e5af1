package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func TestC17(t *testing.T) {
	for i := 0; i < scale(150, 3000) && !rec.Enough(); i++ {
		storeScenario(newRand("C17", i), fmt.Sprintf("scenario %d", i), newIcc(), 20+newRand("C17n", i).Intn(120))
	}
	// terminal numbers at the edges and easily confused ones, in one store
	for i := 0; i < scale(6, 60) && !rec.Enough(); i++ {
		storeScenario(newRand("C17edge", i), fmt.Sprintf("edge scenario %d", i), 0, 250)
	}
	for _, n := range []int{99, 100, 101, 255, 256, 257, 300, 1000} {
		if !rec.Enough() {
			storeLarge(n)
		}
	}
	if thorough && shard == 0 {
		storeLarge(20000)
	}
	storeFirstUse()
	storeUnprivileged()
	for i := 0; i < scale(60, 1500) && !rec.Enough(); i++ {
		storeCrash(i)
	}
}

type storeID struct {
	icc uint64
	msg uint16
	tag uint32
	sum uint16
}

func (s storeID) file() go808.MultipartFile {
	return go808.MultipartFile{IccID: s.icc, MsgID: protocol.MsgID(s.msg), Tag: s.tag, Sum: s.sum}
}

// storeScenario drives the store with random histories next to a model of it.
// icc 0: terminal numbers from a fixed set of easily confused ones.
func storeScenario(r *rand.Rand, name string, icc uint64, ops int) {
	defer func() {
		if e := recover(); e != nil {
			rec.Violate("panic", "%s: the store panics: %v", name, e)
		}
	}()
	// one scenario, one directory: what earlier ones left cannot interfere with
	// the model, which starts empty
	dir, err := os.MkdirTemp("", "c17")
	if err != nil {
		panic(err)
	}
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	defer func() { os.Setenv("TMPDIR", old); os.RemoveAll(dir) }()

	var ids []storeID
	msgs := []uint16{0x0801, 0x0801, 0x0801, 1, 11, 0xffff, 0, 0x0800}
	iccs := []uint64{icc}
	if icc == 0 {
		iccs = []uint64{0, 1, 11, 111, 12, 999999999999, 99999999999, 1111, 1 << 32, 1<<32 + 1, 1<<32 + 11, 1 << 16, 1<<8 + 1}
	} else if r.Intn(2) == 0 {
		iccs = append(iccs, icc*10+1, icc/10, icc+1<<32, icc+1<<36, icc+1<<16)
	}
	for k := 1 + r.Intn(7); k > 0; k-- {
		id := storeID{iccs[r.Intn(len(iccs))], msgs[r.Intn(len(msgs))], tagPool[r.Intn(len(tagPool))], uint16(1 + r.Intn(6))}
		switch r.Intn(8) {
		case 0:
			id.sum = uint16(r.Intn(65536))
		case 1:
			id.sum = []uint16{0, 65535, 12, 11, 21}[r.Intn(5)]
		}
		ids = append(ids, id)
		// a relative that differs in one respect
		if r.Intn(2) == 0 {
			q := id
			switch r.Intn(5) {
			case 0:
				q.icc = iccs[r.Intn(len(iccs))]
			case 1:
				q.msg = msgs[r.Intn(len(msgs))]
			case 2:
				q.tag = tagPool[r.Intn(len(tagPool))]
			case 3:
				q.sum = uint16(1 + r.Intn(6))
			case 4:
				q.tag, q.sum = uint32(q.sum), uint16(q.tag)
			}
			ids = append(ids, q)
		}
	}
	model := map[storeID]map[uint16][]byte{}
	for _, id := range ids {
		model[id] = map[uint16][]byte{}
	}
	var hist []string
	note := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
	say := func() string {
		if len(hist) > 40 {
			return strings.Join(hist[len(hist)-40:], "; ")
		}
		return strings.Join(hist, "; ")
	}
	check := func(id storeID) {
		full := id.sum > 0 && len(model[id]) == int(id.sum)
		got := id.file().IsFull()
		note("full%v=%v", id, got)
		rec.Count("completeness_queries", 1)
		if got != full {
			rec.Violate("complete", "%s: %+v reports complete=%v with %d of %d parts written: %s", name, id, got, len(model[id]), id.sum, say())
		}
	}
	var kept []func()
	defer func() {
		for _, f := range kept {
			f()
		}
	}()
	merge := func(id storeID) {
		full := id.sum > 0 && len(model[id]) == int(id.sum)
		var rd io.ReadCloser
		var err error
		limit := -1 // the disk has room for that many bytes of the result
		if total := modelSize(model[id]); full && total > 0 && r.Intn(6) == 0 {
			limit = r.Intn(total)
			fileLimit(limit, func() { rd, err = id.file().Merge() })
			note("merge with room for %d bytes%v=%v", limit, id, err)
			rec.Count("merges_without_room", 1)
			if err != nil { // nothing is lost
				return
			}
		} else {
			rd, err = id.file().Merge()
			note("merge%v=%v", id, err)
		}
		if !full {
			rec.Count("refused_merges", 1)
			if err == nil {
				var b []byte
				if rd != nil {
					b, _ = io.ReadAll(rd)
					rd.Close()
				}
				rec.Violate("merge-incomplete", "%s: merging %+v succeeds with %d of %d parts written, giving %d bytes: %s", name, id, len(model[id]), id.sum, len(b), say())
				model[id] = map[uint16][]byte{}
			}
			return
		}
		if err != nil {
			rec.Violate("merge", "%s: merging the complete %+v fails: %v: %s", name, id, err, say())
			return
		}
		var want []byte
		for k := 1; k <= int(id.sum); k++ {
			want = append(want, model[id][uint16(k)]...)
		}
		rec.Count("merges", 1)
		if r.Intn(3) == 0 { // read later, while the store goes on
			hist := say()
			cut := 0
			if len(want) > 0 {
				cut = r.Intn(len(want) + 1)
			}
			b := make([]byte, cut)
			n, _ := io.ReadFull(rd, b)
			kept = append(kept, func() {
				rest, err := io.ReadAll(rd)
				rd.Close()
				b := append(b[:n], rest...)
				rec.Count("read_later", 1)
				if err != nil || !bytes.Equal(b, want) {
					rec.Violate("merged-content", "%s: merging %+v and reading the result later gives %d bytes (%v) instead of %d: %s instead of %s: %s; then %s", name, id, len(b), err, len(want), hx(b), hx(want), hist, say())
				}
			})
			model[id] = map[uint16][]byte{}
			return
		}
		b, err := io.ReadAll(rd)
		rd.Close()
		if err != nil || !bytes.Equal(b, want) {
			rec.Violate("merged-content", "%s: merging %+v gives %d bytes (%v) instead of %d: %s instead of %s: %s", name, id, len(b), err, len(want), hx(b), hx(want), say())
		}
		model[id] = map[uint16][]byte{}
	}
	for op := 0; op < ops; op++ {
		id := ids[r.Intn(len(ids))]
		switch k := r.Intn(20); {
		case k < 12:
			seq := uint16(1)
			if id.sum > 0 {
				seq = uint16(1 + r.Intn(int(id.sum)))
				// go for completion
				if r.Intn(2) == 0 && int(id.sum) <= 24 {
					for s := 1; s <= int(id.sum); s++ {
						if _, ok := model[id][uint16(s)]; !ok {
							seq = uint16(s)
							break
						}
					}
				}
			}
			bad := r.Intn(10) == 0 || id.sum == 0
			if bad {
				seq = []uint16{0, id.sum + 1, id.sum + 2, 65535, id.sum + 256}[r.Intn(5)]
				if seq >= 1 && seq <= id.sum {
					bad = false
				}
			}
			data := []byte(fmt.Sprintf("[%d,%d,%d]", seq, op, r.Intn(1000)))
			switch r.Intn(8) {
			case 0:
				data = nil
			case 1:
				data = randBytes(r, r.Intn(3000))
				if r.Intn(20) == 0 {
					data = randBytes(r, r.Intn(300000))
				}
			case 2:
				data = randBytes(r, 1)
			case 3:
				data = []byte("x")
			}
			keep := append([]byte{}, data...)
			var err error
			limit := -1 // the disk has room for that many bytes of the part
			if len(data) > 0 && !bad && r.Intn(8) == 0 {
				limit = r.Intn(len(data))
				fileLimit(limit, func() { err = id.file().Write(seq, data) })
				note("room for %d bytes", limit)
				rec.Count("writes_without_room", 1)
			} else {
				err = id.file().Write(seq, data)
			}
			for i := range data {
				data[i] ^= 0x55
			}
			note("write%v#%d(%d)=%v", id, seq, len(keep), err)
			rec.Count("writes", 1)
			rec.Case(fmt.Sprintf("%s/%v/%d/%x", name, id, seq, keep))
			if bad {
				rec.Count("refused_writes", 1)
				if err == nil {
					rec.Violate("bad-number", "%s: part %d of %d is accepted", name, seq, id.sum)
				}
			} else {
				if err != nil && limit < 0 {
					rec.Violate("write", "%s: writing part %d of %+v fails: %v", name, seq, id, err)
					return
				}
				if err == nil { // a write that fails changes nothing
					model[id][seq] = keep
				}
			}
			if r.Intn(2) == 0 {
				check(id)
			}
		case k < 16:
			check(id)
		case k < 18:
			merge(id)
		default:
			if id.sum > 0 && int(id.sum) == len(model[id]) {
				merge(id)
			} else {
				q := id
				q.icc = newIcc() // nothing was ever written
				model[q] = map[uint16][]byte{}
				check(q)
				merge(q)
				rec.Count("unknown_queried", 1)
			}
		}
		if rec.Enough() {
			return
		}
	}
	for _, id := range ids {
		check(id)
	}
	rec.Sample("%s: %s", name, say())
}

func modelSize(m map[uint16][]byte) int {
	n := 0
	for _, b := range m {
		n += len(b)
	}
	return n
}

var fileLimitMu sync.Mutex

// fileLimit runs f while no file of this process can grow beyond n bytes: a
// write stops there with an error, as on a full disk or in a crash.
func fileLimit(n int, f func()) {
	fileLimitMu.Lock()
	defer fileLimitMu.Unlock()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func storeLarge(n int) {
	r := newRand("C17large", n)
	id := storeID{newIcc(), 0x0801, uint32(r.Intn(100)), uint16(n)}
	f := id.file()
	var want []byte
	parts := make([][]byte, n+1)
	for k := 1; k <= n; k++ {
		parts[k] = []byte(fmt.Sprintf("(%d:%d)", k, r.Intn(1000)))
		want = append(want, parts[k]...)
	}
	perm := r.Perm(n)
	for q, k := range perm {
		if err := f.Write(uint16(k+1), parts[k+1]); err != nil {
			rec.Violate("write", "writing part %d of %d fails: %v", k+1, n, err)
			return
		}
		if q == n-2 && f.IsFull() {
			rec.Violate("complete", "%d of %d parts are reported as complete", n-1, n)
		}
	}
	rec.Count("writes", int64(n))
	if !f.IsFull() {
		rec.Violate("complete", "all %d parts are written but not reported as complete", n)
		return
	}
	rd, err := f.Merge()
	if err != nil {
		rec.Violate("merge", "merging %d parts fails: %v", n, err)
		return
	}
	b, _ := io.ReadAll(rd)
	rd.Close()
	if !bytes.Equal(b, want) {
		rec.Violate("merged-content", "merging %d parts gives %d bytes, should be %d", n, len(b), len(want))
	}
	rec.Count("merges", 1)
	rec.Case(fmt.Sprintf("large/%d", n))
}

// storeFirstUse: several terminals use a store that does not exist yet, at the same time.
func storeFirstUse() {
	for i := 0; i < scale(20, 200) && !rec.Enough(); i++ {
		dir, err := os.MkdirTemp("", "c17")
		if err != nil {
			panic(err)
		}
		old := os.Getenv("TMPDIR")
		os.Setenv("TMPDIR", dir)
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(seed + int64(i*8+k)))
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						rec.Violate("panic", "first use by several terminals: the store panics: %v", e)
					}
				}()
				id := storeID{newIcc(), 0x0801, 5, 3}
				f := id.file()
				var want []byte
				parts := map[int][]byte{}
				for s := 1; s <= 3; s++ {
					parts[s] = randBytes(r, 20)
					want = append(want, parts[s]...)
				}
				for _, s := range r.Perm(3) {
					if err := f.Write(uint16(s+1), parts[s+1]); err != nil {
						rec.Violate("write", "first use by several terminals: writing fails: %v", err)
						return
					}
				}
				rd, err := f.Merge()
				if err != nil {
					rec.Violate("merge", "first use by several terminals: merging fails: %v", err)
					return
				}
				b, _ := io.ReadAll(rd)
				rd.Close()
				if !bytes.Equal(b, want) {
					rec.Violate("merged-content", "first use by several terminals: merged %s instead of %s", hx(b), hx(want))
				}
				rec.Case(fmt.Sprintf("first/%d/%d", i, id.icc))
				rec.Count("merges", 1)
			}()
		}
		wg.Wait()
		os.Setenv("TMPDIR", old)
		os.RemoveAll(dir)
	}
}

// storeUnprivileged runs the model in processes of an unprivileged user with
// several file creation masks.
func storeUnprivileged() {
	exe := os.Getenv("VERIF_EXE")
	if exe == "" {
		exe, _ = os.Executable()
	}
	for k, mask := range []string{"0022", "0077", "0002", "0000"} {
		dir, err := os.MkdirTemp(filepath.Dir(exe), "user")
		if err != nil {
			panic(err)
		}
		os.Chown(dir, 65534, 65534)
		cmd := exec.Command(exe)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_CHILD=store", "TMPDIR="+dir, "VERIF_MASK="+mask, "VERIF_OUT="+filepath.Join(dir, "out.json"),
			fmt.Sprintf("VERIF_SHARD=%d", 100+shard*4+k))
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		if err := cmd.Start(); err != nil {
			rec.Count("unprivileged_not_possible", 1)
			os.RemoveAll(dir)
			continue
		}
		tm := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		tm.Stop()
		s := out.String()
		if i := strings.Index(s, "VIOLATION-OBSERVED key="); i >= 0 {
			rec.Violate("unprivileged", "in a process of an unprivileged user with mask %s: %.3000s", mask, s[i+len("VIOLATION-OBSERVED "):])
		} else if err != nil {
			if strings.Contains(s, "permission denied") && !strings.Contains(s, "store") {
				rec.Count("unprivileged_not_possible", 1)
			} else {
				fmt.Fprintf(os.Stderr, "child: %v %s\n", err, s)
				rec.Count("unprivileged_failed", 1)
			}
		} else {
			rec.Count("unprivileged_processes", 1)
			rec.Case(fmt.Sprintf("unprivileged/%s/%d", mask, shard))
		}
		os.RemoveAll(dir)
	}
}

func childMain(what string) int {
	if what == "crash" {
		return crashChild(int(envInt("VERIF_CRASH", 0)))
	}
	if what != "store" {
		return 3
	}
	var m int
	fmt.Sscanf(os.Getenv("VERIF_MASK"), "%o", &m)
	syscall.Umask(m)
	for i := 0; i < scale(20, 200) && !rec.Enough(); i++ {
		storeScenario(newRand("C17child", i), fmt.Sprintf("child scenario %d", i), newIcc(), 60)
	}
	return 0
}
