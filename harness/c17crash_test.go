package harness

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/funny/link"
)

// A crash of the process that uses the store: a child process of this program
// performs a history known to both and dies in the middle of it - at a
// statement of the store, or in the middle of writing a file. What is found
// afterwards is judged by the parent.

type crashOp struct {
	kind byte // 'w'rite, 'f'ull?, 'm'erge
	id   storeID
	seq  uint16
	data []byte
}

type crashPlan struct {
	ids   []storeID
	ops   []crashOp
	limit int // die when a file would grow beyond that many bytes; -1: never
	after int // die at that pass of a statement of the store; -1: never
}

// crashHistory is the same in the parent and in the child.
func crashHistory(idx int) crashPlan {
	r := newRand("C17crash", idx)
	var p crashPlan
	icc := uint64(1000000 + idx)
	for k := 1 + r.Intn(3); k > 0; k-- {
		id := storeID{icc, 0x0801, uint32(r.Intn(3)), uint16(1 + r.Intn(5))}
		if r.Intn(3) == 0 {
			id.icc = icc*10 + uint64(r.Intn(10))
		}
		for _, q := range p.ids {
			if q == id {
				id.tag += 100
			}
		}
		p.ids = append(p.ids, id)
	}
	have := map[storeID]map[uint16]bool{}
	n := 5 + r.Intn(30)
	for len(p.ops) < n {
		id := p.ids[r.Intn(len(p.ids))]
		if have[id] == nil {
			have[id] = map[uint16]bool{}
		}
		full := len(have[id]) == int(id.sum)
		switch {
		case full && r.Intn(2) == 0:
			p.ops = append(p.ops, crashOp{kind: 'm', id: id})
			have[id] = nil
		case r.Intn(8) == 0:
			p.ops = append(p.ops, crashOp{kind: 'f', id: id})
		default:
			seq := uint16(1 + r.Intn(int(id.sum)))
			size := r.Intn(60)
			if r.Intn(4) == 0 {
				size = 1000 + r.Intn(6000)
			}
			if r.Intn(10) == 0 {
				size = 0
			}
			p.ops = append(p.ops, crashOp{'w', id, seq, randBytes(r, size)})
			have[id][seq] = true
		}
	}
	p.limit, p.after = -1, -1
	if r.Intn(3) == 0 || len(pointList) == 0 {
		p.limit = r.Intn(60)
		if r.Intn(2) == 0 {
			p.limit = r.Intn(7000)
		}
	} else {
		p.after = r.Intn(60 * len(p.ops))
		if r.Intn(2) == 0 {
			p.after = r.Intn(400)
		}
	}
	return p
}

// crashChild performs the history and dies on the way, unless the place to die
// is never reached.
func crashChild(idx int) int {
	p := crashHistory(idx)
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if p.after >= 0 {
		hot := map[int]uint8{}
		for _, n := range pointList {
			if inFiles(pointName[n], []string{"multipart"}) {
				hot[n] = 255
			}
		}
		var passes atomic.Int64
		link.SetPoints(hot, func(int) {
			if passes.Add(1) == int64(p.after)+1 {
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
				select {}
			}
		})
	}
	if p.limit >= 0 {
		// the default action of SIGXFSZ, which the Go runtime replaced, is to
		// end the process
		var sa [4]uint64
		syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(syscall.SIGXFSZ), uintptr(unsafe.Pointer(&sa)), 0, 8, 0, 0)
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		lim.Cur = uint64(p.limit)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
	}
	for _, o := range p.ops {
		switch o.kind {
		case 'w':
			if err := o.id.file().Write(o.seq, o.data); err != nil {
				fmt.Printf("error %v\n", err)
				return 4
			}
		case 'f':
			o.id.file().IsFull()
		case 'm':
			rd, err := o.id.file().Merge()
			if err != nil {
				fmt.Printf("error %v\n", err)
				return 4
			}
			rd.Close()
		}
		// to a pipe: what is said has happened
		os.Stdout.WriteString("done\n")
	}
	return 0
}

func storeCrash(idx int) {
	exe := os.Getenv("VERIF_EXE")
	if exe == "" {
		exe, _ = os.Executable()
	}
	dir, err := os.MkdirTemp("", "c17crash")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := crashHistory(idx)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=crash", fmt.Sprintf("VERIF_CRASH=%d", idx), "TMPDIR="+dir, "VERIF_OUT="+filepath.Join(dir, "out.json"))
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		rec.Count("crash_child_not_started", 1)
		return
	}
	tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !tm.Stop() {
		rec.Count("crash_child_late", 1)
		return
	}
	s := out.String()
	if strings.Contains(s, "error ") {
		rec.Count("crash_child_error", 1)
		return
	}
	midFile := false
	done := strings.Count(s, "done\n")
	if err == nil || done >= len(p.ops) {
		done = len(p.ops)
		rec.Count("crash_after_the_end", 1)
	} else if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		rec.Count("crashes_in_"+map[byte]string{'w': "write", 'f': "query", 'm': "merge"}[p.ops[done].kind], 1)
		if ws.Signal() == syscall.SIGXFSZ {
			midFile = true
			rec.Count("crashes_in_the_middle_of_a_file", 1)
		}
		rec.Case(fmt.Sprintf("crash/%d/%d", idx, shard))
	} else {
		rec.Count("crash_child_failed", 1)
		return
	}

	// the model, up to the crash
	model := map[storeID]map[uint16][]byte{}
	for _, id := range p.ids {
		model[id] = map[uint16][]byte{}
	}
	hist := ""
	for i, o := range p.ops {
		if i > done {
			break
		}
		if i == done {
			hist += " CRASH IN"
		}
		hist += fmt.Sprintf(" %c%v#%d(%d)", o.kind, o.id, o.seq, len(o.data))
		if i == done {
			break
		}
		switch o.kind {
		case 'w':
			model[o.id][o.seq] = o.data
		case 'm':
			model[o.id] = map[uint16][]byte{}
		}
	}
	var last *crashOp
	if done < len(p.ops) {
		last = &p.ops[done]
	}

	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	defer os.Setenv("TMPDIR", old)
	defer func() {
		if e := recover(); e != nil {
			rec.Violate("panic", "after a crash the store panics: %v:%s", e, hist)
		}
	}()
	r := newRand("C17crashafter", idx)
	for _, id := range p.ids {
		f := id.file()
		m := model[id]
		hit := last != nil && last.id == id
		was := len(m) == int(id.sum)
		got := f.IsFull()
		rec.Count("completeness_queries_after_crash", 1)
		// which parts may be there with which contents: nil in the list means
		// it may be missing
		may := map[uint16][][]byte{}
		for k := uint16(1); k <= id.sum; k++ {
			if b, ok := m[k]; ok {
				may[k] = [][]byte{b}
			} else {
				may[k] = [][]byte{nil}
			}
		}
		switch {
		case hit && last.kind == 'w':
			may[last.seq] = append(may[last.seq], last.data)
			with := was
			if _, ok := m[last.seq]; !ok && len(m) == int(id.sum)-1 {
				with = true
			}
			if got && !with || !got && was {
				rec.Violate("crash-complete", "after a crash while part %d of %+v was being written, it reports complete=%v with %d parts written before:%s", last.seq, id, got, len(m), hist)
				return
			}
		case hit && last.kind == 'm':
			// the upload is complete before and used up afterwards; while the
			// result is still being written it is not used up
			if midFile && !got {
				rec.Violate("crash-complete", "after a crash while the result of merging %+v was being written it is no longer complete:%s", id, hist)
				return
			}
			for k := range may {
				may[k] = append(may[k], nil)
			}
		default:
			if got != was {
				rec.Violate("crash-complete", "after a crash it reports complete=%v for %+v with %d parts written:%s", got, id, len(m), hist)
				return
			}
		}
		if !got {
			if rd, err := f.Merge(); err == nil {
				rd.Close()
				rec.Violate("crash-merge-incomplete", "after a crash %+v is merged although it is not complete:%s", id, hist)
				return
			}
		}
		// write again what is missing - which is not known exactly - until it
		// is complete
		order := r.Perm(int(id.sum))
		if !hit {
			var missing []int
			for _, k := range order {
				if _, ok := m[uint16(k+1)]; !ok {
					missing = append(missing, k)
				}
			}
			order = missing
		} else if last.kind == 'w' { // what was being written comes last
			var first, then []int
			for _, k := range order {
				if _, ok := m[uint16(k+1)]; ok {
					continue
				}
				if uint16(k+1) == last.seq {
					then = append(then, k)
				} else {
					first = append(first, k)
				}
			}
			order = append(first, then...)
		}
		for _, k := range order {
			if f.IsFull() {
				break
			}
			b := randBytes(r, 1+r.Intn(40))
			if err := f.Write(uint16(k+1), b); err != nil {
				rec.Violate("crash-write", "after a crash writing part %d of %+v fails: %v:%s", k+1, id, err, hist)
				return
			}
			may[uint16(k+1)] = [][]byte{b}
		}
		if !f.IsFull() {
			rec.Violate("crash-complete", "after a crash %+v is not complete when all that was missing is written:%s", id, hist)
			return
		}
		rd, err := f.Merge()
		if err != nil {
			rec.Violate("crash-merge", "after a crash merging the completed %+v fails: %v:%s", id, err, hist)
			return
		}
		b, err := io.ReadAll(rd)
		rd.Close()
		if err != nil || !fitsParts(b, may, 1, id.sum) {
			rec.Violate("crash-content", "after a crash merging %+v gives %d bytes (%v) that are not its parts: %s:%s", id, len(b), err, hx(b), hist)
			return
		}
		rec.Count("merges_after_crash", 1)
		continueCheck(f.IsFull(), id, hist)
	}
	rec.Sample("crash:%s", hist)
}

func continueCheck(full bool, id storeID, hist string) {
	if full {
		rec.Violate("crash-complete", "after a crash %+v is still complete after it was merged:%s", id, hist)
	}
}

// fitsParts: b is a concatenation of one of the possible contents of each part.
func fitsParts(b []byte, may map[uint16][][]byte, k, sum uint16) bool {
	if k > sum {
		return len(b) == 0
	}
	for _, c := range may[k] {
		if c != nil && bytes.HasPrefix(b, c) && fitsParts(b[len(c):], may, k+1, sum) {
			return true
		}
	}
	return false
}
