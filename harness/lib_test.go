package harness

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	go808 "gitee.com/coco/go808"
	log "github.com/sirupsen/logrus"
)

// ---------------------------------------------------------------- recorder

// Violation is one observed breach of the property under check.
type Violation struct {
	Key    string      `json:"key"` // stable identification, used to match known findings
	What   string      `json:"what"`
	Detail interface{} `json:"detail,omitempty"`
}

// Result is what one phase process reports to check.py.
type Result struct {
	Phase       string           `json:"phase"`
	Seed        int64            `json:"seed"`
	Shard       int              `json:"shard"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Done        bool             `json:"done"`
}

// Rec collects what the monitors observed.
type Rec struct {
	mu       sync.Mutex
	r        Result
	distinct map[uint64]struct{}
	perKey   map[string]int
}

var rec = &Rec{
	r:        Result{Counters: map[string]int64{}},
	distinct: map[uint64]struct{}{},
	perKey:   map[string]int{},
}

const maxViolations = 8

// Case counts one evaluated case; sig identifies it for the distinctness count
// (empty: trivial, not counted as distinct).
func (r *Rec) Case(sig string) {
	progress.Add(1)
	r.mu.Lock()
	r.r.Evaluations++
	if sig != "" && len(r.distinct) < 4000000 {
		h := fnv.New64a()
		io.WriteString(h, sig)
		r.distinct[h.Sum64()] = struct{}{}
	}
	r.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (r *Rec) Count(name string, n int64) {
	progress.Add(1)
	r.mu.Lock()
	r.r.Counters[name] += n
	r.mu.Unlock()
}

// Max keeps the largest value of a named counter.
func (r *Rec) Max(name string, n int64) {
	r.mu.Lock()
	if n > r.r.Counters[name] {
		r.r.Counters[name] = n
	}
	r.mu.Unlock()
}

// Sample keeps a few cases written out.
func (r *Rec) Sample(format string, a ...interface{}) {
	r.mu.Lock()
	if len(r.r.Samples) < 4 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.r.Samples = append(r.r.Samples, s)
	}
	r.mu.Unlock()
}

// Violate records a breach. key groups breaches of one kind.
func (r *Rec) Violate(key, format string, a ...interface{}) {
	what := fmt.Sprintf(format, a...)
	if len(what) > 20000 {
		what = what[:20000] + "..."
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.perKey[key] >= 2 || len(r.r.Violations) >= 40 {
		r.r.Counters["suppressed_violations"]++
		return
	}
	r.perKey[key]++
	r.r.Violations = append(r.r.Violations, Violation{Key: key, What: what})
	fmt.Fprintf(os.Stderr, "VIOLATION-OBSERVED key=%s %s\n", key, what)
}

// Enough says that sufficiently many breaches were seen to stop exploring.
func (r *Rec) Enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.r.Violations) >= maxViolations
}

// Any says that a breach was seen.
func (r *Rec) Any() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.r.Violations) > 0
}

func (r *Rec) flush(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.r.Distinct = len(r.distinct)
	pointCount()
	r.r.Done = done
	out := os.Getenv("VERIF_OUT")
	data, _ := json.MarshalIndent(&r.r, "", " ")
	if out == "" {
		os.Stderr.Write(append(data, '\n'))
		return
	}
	tmp := out + ".tmp"
	if err := os.WriteFile(tmp, data, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write result:", err)
		os.Exit(3)
	}
	if err := os.Rename(tmp, out); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write result:", err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- parameters

var (
	seed     int64 = 1
	shard    int
	shards   = 1
	thorough bool
	progress atomic.Int64
	realMS   atomic.Int64 // real milliseconds since start, kept by a goroutine outside every bubble
	onlyCase = int64(-1)
)

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// scale picks the quick or thorough amount.
func scale(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

// newRand returns the generator of one case of one phase.
func newRand(phase string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%d/%s/%d", seed, shard, phase, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func TestMain(m *testing.M) {
	seed = envInt("VERIF_SEED", 1)
	shard = int(envInt("VERIF_SHARD", 0))
	shards = int(envInt("VERIF_SHARDS", 1))
	onlyCase = envInt("VERIF_CASE", -1)
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	rec.r.Seed, rec.r.Shard = seed, shard
	loadPoints()
	log.SetOutput(io.Discard)
	go808.SetLogLevel(go808.PanicLevel)
	if shard%4 == 3 {
		go808.SetLogLevel(go808.TraceLevel) // what is logged is computed, too
	}
	if os.Getenv("VERIF_CHILD") != "" {
		os.Exit(childMain(os.Getenv("VERIF_CHILD")))
	}
	start := time.Now()
	stuckMS := envInt("VERIF_STUCK_MS", 120000)
	go func() {
		last, since := int64(-1), int64(0)
		for {
			time.Sleep(time.Millisecond)
			now := time.Since(start).Milliseconds()
			realMS.Store(now)
			if p := progress.Load(); p != last {
				last, since = p, now
			} else if now-since > stuckMS {
				buf := make([]byte, 16<<20)
				buf = buf[:runtime.Stack(buf, true)]
				rec.Violate("stuck", "no progress for %d ms of real time: deadlock, endless loop or extreme delay in the code under test\n%s", stuckMS, stacksOf(buf))
				rec.flush(true)
				os.Exit(0)
			}
		}
	}()
	code := m.Run()
	rec.flush(code == 0)
	os.Exit(code)
}

// stacksOf keeps the goroutines that have go808 frames.
func stacksOf(buf []byte) string {
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "CountdownTimer).checkExpirationQueue") && strings.Contains(g, "(durable)") {
			continue // an idle timer
		}
		if strings.Contains(g, "gitee.com/coco/go808") || strings.Contains(g, "verif/harness") || strings.Contains(g, "funny/link") {
			keep = append(keep, g)
		}
	}
	if len(keep) > 30 {
		keep = keep[:30]
	}
	return strings.Join(keep, "\n\n")
}

// bubble runs f in virtual time and then ends the process: the keepalive timer
// of a server never ends, so a bubble with a server never would either.
func bubble(t *testing.T, f func()) {
	synctest.Test(t, func(t *testing.T) {
		func() {
			defer func() {
				if e := recover(); e != nil {
					bubblePanic(e)
				}
			}()
			f()
		}()
		rec.flush(true)
		os.Exit(0)
	})
}

// ---------------------------------------------------------------- small helpers

func hx(b []byte) string {
	if len(b) > 1200 {
		return hex.EncodeToString(b[:1200]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func trySafe(f func()) (panicked interface{}, stack string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = e
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// spinUntil yields until cond or about ms real milliseconds passed. Usable at
// points where a lock might be held: it never sleeps in virtual time.
func spinUntil(ms int64, cond func() bool) bool {
	end := realMS.Load() + ms
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if realMS.Load() > end {
			return false
		}
		runtime.Gosched()
	}
}

// jitter yields a random number of times.
func jitter(r *lockedRand, max int) {
	n := r.Intn(max + 1)
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

type lockedRand struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (l *lockedRand) Intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Intn(n)
}
