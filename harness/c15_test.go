package harness

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	go808 "gitee.com/coco/go808"
)

func TestC15(t *testing.T) {
	bubble(t, func() {
		for i := 0; i < scale(60, 500) && !rec.Enough(); i++ {
			timerScenario(i)
		}
		for i := 0; i < scale(40, 400) && !rec.Enough(); i++ {
			timerConcScenario(i)
		}
		for i := 0; i < scale(20, 200) && !rec.Enough(); i++ {
			timerRearmScenario(i)
		}
		for i := 0; i < scale(12, 120) && !rec.Enough(); i++ {
			timerBurstScenario(i)
		}
		for i := 0; i < scale(30, 300) && !rec.Enough(); i++ {
			timerSlowScenario(i)
		}
	})
}

type fire struct {
	key string
	at  time.Time
}

type fires struct {
	mu sync.Mutex
	l  []fire
}

func (f *fires) add(k string) {
	f.mu.Lock()
	f.l = append(f.l, fire{k, time.Now()})
	f.mu.Unlock()
	progress.Add(1)
}

func (f *fires) of(k string) []time.Time {
	f.mu.Lock()
	defer f.mu.Unlock()
	var o []time.Time
	for _, x := range f.l {
		if x.key == k {
			o = append(o, x.at)
		}
	}
	return o
}

// timerScenario: a random history; every arming either must fire in its window,
// must not fire, or was disarmed inside the window (then either is right).
func timerScenario(i int) {
	r := newRand("C15", i)
	period := int64(1 + r.Intn(12))
	if r.Intn(8) == 0 {
		period = 3600
	}
	fs := &fires{}
	var tm *go808.CountdownTimer
	tm = go808.NewCountdownTimer(period, func(k string) {
		fs.add(k)
	})
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	start := time.Now()
	type arming struct {
		at, end time.Time // end: disarmed or re-armed; zero: never
		p       time.Duration
		never   bool // the period does not run out within the scenario
	}
	nk := 1 + r.Intn(12)
	if r.Intn(5) == 0 {
		nk = 200
	}
	name := keyNames(r)
	arms := map[string][]*arming{}
	cur := map[string]*arming{}
	p := time.Duration(period) * time.Second
	never := false
	steps := 60 + r.Intn(150)
	hist := map[string][]string{}
	for s := 0; s < steps; s++ {
		k := name(r.Intn(nk))
		now := time.Now()
		rel := now.Sub(start).String()
		switch x := r.Intn(20); {
		case x < 11:
			tm.Update(k)
			if c := cur[k]; c != nil {
				c.end = now
			}
			a := &arming{at: now, p: p, never: never}
			cur[k] = a
			arms[k] = append(arms[k], a)
			hist[k] = append(hist[k], "arm "+rel)
			rec.Count("arm", 1)
		case x < 15:
			tm.Remove(k)
			if c := cur[k]; c != nil {
				c.end = now
			}
			cur[k] = nil
			hist[k] = append(hist[k], "remove "+rel)
			rec.Count("remove", 1)
		case x == 15:
			np := int64(1 + r.Intn(10))
			if r.Intn(4) == 0 {
				tm.SetExpiration(-int64(r.Intn(3))) // ignored: not a period
			} else {
				never = r.Intn(6) == 0
				if never { // far beyond the end of the scenario
					np = []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 / 2, 1 << 40, 1 << 32, 1 << 31}[r.Intn(6)]
					rec.Count("periods_that_never_run_out", 1)
				} else {
					p = time.Duration(np) * time.Second
				}
				tm.SetExpiration(np)
			}
		default:
			switch r.Intn(4) {
			case 0:
				time.Sleep(time.Duration(r.Int63n(int64(p))))
			case 1:
				time.Sleep(time.Duration(r.Int63n(int64(3 * time.Second))))
			case 2:
				time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
			case 3:
				time.Sleep(p)
			}
		}
	}
	time.Sleep(p + 14*time.Second)
	if period == 3600 {
		time.Sleep(3700 * time.Second)
	}
	settle()
	total := 0
	for k, as := range arms {
		fl := fs.of(k)
		total += len(fl)
		// match the firings with the armings
		j := 0
		for _, a := range as {
			lo, hi := a.at.Add(a.p-time.Second), a.at.Add(a.p+2*time.Second)
			must := !a.never && (a.end.IsZero() || a.end.After(hi))
			may := !a.never && (a.end.IsZero() || a.end.After(lo))
			fired := false
			if j < len(fl) && may && !fl[j].Before(lo) && !fl[j].After(hi) && (a.end.IsZero() || !fl[j].After(a.end.Add(time.Millisecond))) {
				fired = true
				j++
			}
			rec.Case(fmt.Sprintf("%d/%s/%v", i, k, a.at))
			if must && !fired {
				rec.Violate("missed", "scenario %d: key %s armed at %v with period %v did not fire in its window; firings %v; history %v", i, k, a.at.Sub(start), a.p, relTimes(fl, start), hist[k])
				return
			}
			if fired {
				rec.Count("fired", 1)
			} else {
				rec.Count("disarmed", 1)
			}
		}
		if j != len(fl) {
			rec.Violate("surplus", "scenario %d: key %s fired at %v, not explained by its history %v (period changes possible)", i, k, relTimes(fl, start), hist[k])
			return
		}
	}
	fs.mu.Lock()
	n := len(fs.l)
	fs.mu.Unlock()
	if n != total {
		rec.Violate("foreign", "scenario %d: %d callbacks, %d for keys that were armed", i, n, total)
	}
	rec.Count("scenarios", 1)
}

// keyNames returns the names of a scenario's keys: any string is a key.
func keyNames(r *rand.Rand) func(int) string {
	switch r.Intn(5) {
	case 0:
		return func(n int) string { // long, differing at the end only
			return strings.Repeat("terminal-", 1+n%40) + fmt.Sprint(n)
		}
	case 1:
		return func(n int) string { // differing in what is easily normalised away
			return strings.Repeat("0", n%7) + strings.Repeat(" ", n/7%6) + []string{"a", "A", "\u00e4", "a\x00", ""}[n/42%5]
		}
	case 2:
		return func(n int) string { return string(rune(n)) }
	case 3:
		return func(n int) string { // hexadecimal, negative, very large numbers
			return fmt.Sprintf([]string{"%#x", "-%d", "%d000000000000000000000", "+%d", "%d.0"}[n%5], n/5)
		}
	}
	return func(n int) string { return fmt.Sprintf("k%d", n) }
}

func relTimes(ts []time.Time, start time.Time) []string {
	var o []string
	for _, t := range ts {
		o = append(o, t.Sub(start).String())
	}
	return o
}

// timerConcScenario: chaos on a few keys, then one last operation per key.
func timerConcScenario(i int) {
	r := newRand("C15C", i)
	perturb(newRand("C15Cp", i))
	period := int64(2 + r.Intn(6))
	p := time.Duration(period) * time.Second
	fs := &fires{}
	tm := go808.NewCountdownTimer(period, fs.add)
	nk := 1 + r.Intn(8)
	stopAt := time.Now().Add(time.Duration(1+r.Intn(8)) * time.Second / 2)
	var wg sync.WaitGroup
	for u := 0; u < 8; u++ {
		ur := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stopAt) {
				for x := 0; x < 40; x++ {
					k := fmt.Sprintf("k%d", ur.Intn(nk))
					if ur.Intn(3) == 0 {
						tm.Remove(k)
					} else {
						tm.Update(k)
					}
					if ur.Intn(6) == 0 {
						yieldOnce()
					}
					progress.Add(1)
				}
				rec.Count("concurrent_ops", 40)
				time.Sleep(time.Duration(1+ur.Intn(300)) * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	// the last word on every key, itself concurrent with that on the others
	last := make([]bool, nk)
	for k := range last {
		last[k] = r.Intn(2) == 0
	}
	for k, armed := range last {
		k, armed := k, armed
		wg.Add(1)
		go func() {
			defer wg.Done()
			if armed {
				tm.Update(fmt.Sprintf("k%d", k))
			} else {
				tm.Remove(fmt.Sprintf("k%d", k))
			}
		}()
	}
	wg.Wait()
	end := time.Now()
	time.Sleep(p + 6*time.Second)
	settle()
	for k, armed := range last {
		key := fmt.Sprintf("k%d", k)
		var after []time.Time
		for _, f := range fs.of(key) {
			if f.After(end) {
				after = append(after, f)
			}
		}
		rec.Case(fmt.Sprintf("c%d/%d/%v", i, k, armed))
		switch {
		case !armed && len(after) > 0:
			rec.Violate("removed-fires", "scenario %d: key %s fired at %v after it was removed (concurrent use before)", i, key, relTimes(after, end))
		case armed && len(after) != 1:
			rec.Violate("armed-count", "scenario %d: key %s, armed last, fired %d times: %v", i, key, len(after), relTimes(after, end))
		case armed:
			d := after[0].Sub(end)
			if d < p-time.Second || d > p+2*time.Second {
				rec.Violate("armed-when", "scenario %d: key %s with period %v fired after %v", i, key, p, d)
			}
			rec.Count("fired", 1)
		default:
			rec.Count("disarmed", 1)
		}
	}
	// nothing is left behind
	n := len(fs.l)
	time.Sleep(5 * p)
	if len(fs.l) != n {
		rec.Violate("late", "scenario %d: firings long after every key expired", i)
	}
	rec.Count("conc_scenarios", 1)
}

// timerRearmScenario: the callback itself arms and removes keys.
func timerRearmScenario(i int) {
	r := newRand("C15R", i)
	perturb(newRand("C15Rp", i))
	period := int64(1 + r.Intn(6))
	p := time.Duration(period) * time.Second
	fs := &fires{}
	var tm *go808.CountdownTimer
	var mu sync.Mutex
	left := map[string]int{}
	nk := 1 + r.Intn(20)
	tm = go808.NewCountdownTimer(period, func(k string) {
		fs.add(k)
		mu.Lock()
		left[k]--
		again := left[k] > 0
		mu.Unlock()
		tm.Remove("victim-of-" + k)
		if again {
			tm.Update(k)
		}
	})
	total := map[string]int{}
	first := map[string]time.Time{}
	for k := 0; k < nk; k++ {
		key := fmt.Sprintf("k%d", k)
		total[key] = 1 + r.Intn(5)
		mu.Lock()
		left[key] = total[key]
		mu.Unlock()
		first[key] = time.Now()
		tm.Update(key)
		time.Sleep(time.Duration(r.Intn(700)) * time.Millisecond)
	}
	end := time.Now()
	var never []string
	for k := 0; k < nk; k++ { // armed now, removed by the callback of a key that expires earlier
		key := fmt.Sprintf("k%d", k)
		if end.Sub(first[key]) > 3100*time.Millisecond && end.Sub(first[key]) < p-1500*time.Millisecond {
			tm.Update("victim-of-" + key)
			never = append(never, "victim-of-"+key)
		}
	}
	time.Sleep(6*p + 20*time.Second)
	settle()
	for key, n := range total {
		fl := fs.of(key)
		rec.Case(fmt.Sprintf("r%d/%s/%d", i, key, n))
		if len(fl) != n {
			rec.Violate("rearm-count", "scenario %d: key %s, armed again by the callback %d times, fired %d times", i, key, n-1, len(fl))
			continue
		}
		prev := first[key]
		for _, f := range fl {
			if d := f.Sub(prev); d < p-time.Second || d > p+2*time.Second {
				rec.Violate("rearm-when", "scenario %d: key %s with period %v fired %v after being armed", i, key, p, d)
			}
			prev = f
			rec.Count("fired", 1)
		}
	}
	for _, k := range never {
		rec.Count("disarmed", 1)
		if len(fs.of(k)) != 0 {
			rec.Violate("removed-fires", "scenario %d: key %s fired although the callback removed it", i, k)
		}
	}
	rec.Count("rearm_scenarios", 1)
}

// timerBurstScenario: very many keys whose periods run out in the same seconds.
func timerBurstScenario(i int) {
	r := newRand("C15B", i)
	perturb(newRand("C15Bp", i), "timer")
	defer calm()
	period := int64(1 + r.Intn(8))
	fs := &fires{}
	tm := go808.NewCountdownTimer(period, fs.add)
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	n := []int{65, 130, 260, 1030, 3000, 8000}[r.Intn(6)]
	if i == 3 {
		n = []int{12000, 17000, 33000, 66000}[shard%4]
	}
	p := time.Duration(period) * time.Second
	type st struct {
		at  time.Time
		out bool
	}
	state := make([]st, n)
	arm := func(k int) { tm.Update(fmt.Sprint(k)); state[k] = st{at: time.Now()} }
	waves := 1 + r.Intn(3)
	for w := 0; w < waves; w++ {
		for _, k := range r.Perm(n) {
			switch r.Intn(10) {
			case 0:
				tm.Remove(fmt.Sprint(k))
				state[k].out = true
			default:
				if w == 0 || r.Intn(3) == 0 {
					arm(k)
				}
			}
		}
		// less than the period minus a second, so that nothing runs out yet
		if p > 1500*time.Millisecond {
			time.Sleep(time.Duration(r.Int63n(int64(p-1500*time.Millisecond) / int64(waves))))
		}
	}
	last := time.Now()
	time.Sleep(p + 5*time.Second)
	settle()
	fs.mu.Lock()
	defer fs.mu.Unlock()
	got := map[string][]time.Time{}
	for _, f := range fs.l {
		got[f.key] = append(got[f.key], f.at)
	}
	for k := range state {
		g := got[fmt.Sprint(k)]
		rec.Case(fmt.Sprintf("burst %d/%d", i, k))
		if state[k].at.IsZero() || state[k].out {
			if len(g) > 0 {
				rec.Violate("surplus", "burst %d of %d keys: removed key %d fired", i, n, k)
			}
			continue
		}
		if len(g) != 1 {
			rec.Violate("burst-count", "burst %d of %d keys, period %v: key %d fired %d times", i, n, p, k, len(g))
			return
		}
		if d := g[0].Sub(state[k].at); d < p-time.Second || d > p+2*time.Second {
			rec.Violate("burst-when", "burst %d of %d keys: key %d fired %v after its arming, period %v (last arming of the burst %v ago)", i, n, k, d, p, g[0].Sub(last))
			return
		}
		rec.Count("burst_fired", 1)
	}
}

// timerSlowScenario: callbacks that take their time. Keys that run out meanwhile
// fire once and not early; what is armed after they have returned is on time.
func timerSlowScenario(i int) {
	r := newRand("C15S", i)
	perturb(newRand("C15Sp", i))
	defer calm()
	period := int64(1 + r.Intn(8))
	p := time.Duration(period) * time.Second
	fs := &fires{}
	var mu sync.Mutex
	slow := map[string]time.Duration{}
	tm := go808.NewCountdownTimer(period, func(k string) {
		fs.add(k)
		mu.Lock()
		d := slow[k]
		mu.Unlock()
		time.Sleep(d)
	})
	time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	for round := 0; round < 3; round++ {
		at := map[string]time.Time{}
		busy := time.Duration(0)
		for k := 1 + r.Intn(10); k > 0; k-- {
			key := fmt.Sprintf("slow %d/%d", round, k)
			if r.Intn(3) == 0 {
				d := time.Duration(r.Intn(9000)) * time.Millisecond
				busy += d
				mu.Lock()
				slow[key] = d
				mu.Unlock()
			}
			tm.Update(key)
			at[key] = time.Now()
			time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
		}
		time.Sleep(p + busy + 3*time.Second)
		settle()
		for key, t := range at {
			fl := fs.of(key)
			rec.Case(fmt.Sprintf("%d %s", i, key))
			if len(fl) != 1 {
				rec.Violate("slow-count", "slow callbacks %d: key %s fired %d times", i, key, len(fl))
			} else if d := fl[0].Sub(t); d < p-time.Second {
				rec.Violate("slow-when", "slow callbacks %d: key %s fired %v after its arming, period %v", i, key, d, p)
			}
		}
		// none is running any more
		key := fmt.Sprintf("then %d", round)
		t := time.Now()
		tm.Update(key)
		time.Sleep(p + 4*time.Second)
		settle()
		fl := fs.of(key)
		if len(fl) != 1 {
			rec.Violate("slow-count", "slow callbacks %d: key %s fired %d times after slow callbacks had returned", i, key, len(fl))
		} else if d := fl[0].Sub(t); d < p-time.Second || d > p+2*time.Second {
			rec.Violate("slow-when", "slow callbacks %d: armed after slow callbacks had returned, a key with period %v fired after %v", i, p, d)
		}
		rec.Count("after_slow_callbacks", 1)
		time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
	}
}
