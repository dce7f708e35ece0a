package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// A check explores a finite space completely. The space is cut into phases,
// each phase into units (distributed over the workers), each unit into cases.
// A case is identified by (phase, unit, seq), which is deterministic, so that
// every case can be executed again alone (the replay of a violation).

type caseID struct {
	Phase string `json:"phase"`
	Unit  int64  `json:"unit"`
	Seq   int64  `json:"seq"`
}

type violation struct {
	Case caseID `json:"case"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

type phaseStat struct {
	Name     string           `json:"name"`
	Units    int              `json:"units"`
	Cases    int64            `json:"cases"`
	States   int64            `json:"states"`
	Trans    int64            `json:"transitions"`
	Outcomes map[string]int64 `json:"outcomes"`
	Wall     float64          `json:"wall_s"`
	Complete bool             `json:"complete"`
	Bound    string           `json:"bound"`
}

type result struct {
	Violations []violation         `json:"violations"`
	Known      map[string]knownHit `json:"known"`
	Phases     []*phaseStat        `json:"phases"`
	Samples    []string            `json:"samples"`
	Extra      map[string]int64    `json:"extra"`
	Deadline   bool                `json:"deadline"`
	OnlyRan    bool                `json:"only_ran"`
}

type knownHit struct {
	Count  int64  `json:"count"`
	Sample string `json:"sample"`
}

type Ctx struct {
	id       string
	thorough bool
	only     *caseID
	known    map[string]bool // keys of the listed known findings of this property
	slots    []slot
	deadline time.Time

	mu      sync.Mutex
	res     result
	stop    atomic.Bool
	onlyRan atomic.Bool

	phaseNames []string
	namesFile  string
	workers    []*W

	soft   []func()
	inSoft atomic.Bool
}

// slot lies in a memory mapped file, so that the supervisor can see which
// cases were running when the process died.
type slot struct {
	Phase, Unit, Seq, Active int64
}

const maxSlots = 64

type W struct {
	c        *Ctx
	phase    string
	phaseIdx int64
	unit     int64
	seq      int64
	slot     *slot
	desc     func() string
	note     string // what the case is doing at the moment
	failed   bool
	started  atomic.Int64 // changes with every case
	running  atomic.Bool

	cases, states, trans int64
	outcomes             map[string]int64
	nsamples             int
	knownN               map[string]int64
	slowest              float64
}

func (c *Ctx) quickOr(q, t int) int {
	if c.thorough {
		return t
	}
	return q
}

func (c *Ctx) extra(name string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Extra == nil {
		c.res.Extra = map[string]int64{}
	}
	c.res.Extra[name] += n
}

// Phase runs all units of a phase on all cores.
func (c *Ctx) Phase(name string, bound string, units int, f func(w *W, unit int)) {
	c.phaseN(name, bound, units, runtime.NumCPU(), f)
}

// Soft queues a phase of huge cases. They are executed after all others, and
// only what they return is judged: a case that needs too much time, memory or
// stack (the properties promise no bounds for these) ends the exploration.
func (c *Ctx) Soft(name string, bound string, units int, nw int, f func(w *W, unit int)) {
	c.soft = append(c.soft, func() { c.phaseN(name, bound, units, nw, f) })
}

func (c *Ctx) phaseN(name string, bound string, units int, nw int, f func(w *W, unit int)) {
	if c.stop.Load() {
		return
	}
	if c.only != nil && c.only.Phase != name {
		return
	}
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "phase %s (%d units)\n", name, units)
	}
	start := time.Now()
	c.mu.Lock()
	c.phaseNames = append(c.phaseNames, name)
	idx := int64(len(c.phaseNames) - 1)
	if c.namesFile != "" {
		// needed to interpret the slots after a crash
		os.WriteFile(c.namesFile, []byte(strings.Join(c.phaseNames, "\n")), 0o644)
	}
	c.mu.Unlock()
	if nw > maxSlots {
		nw = maxSlots
	}
	if c.only != nil {
		nw = 1
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	ws := make([]*W, nw)
	for i := 0; i < nw; i++ {
		ws[i] = &W{c: c, phase: name, phaseIdx: idx, slot: &c.slots[i], outcomes: map[string]int64{}}
	}
	c.mu.Lock()
	c.workers = ws
	c.mu.Unlock()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			for !c.stop.Load() {
				u := next.Add(1) - 1
				if c.only != nil {
					if u > 0 {
						return
					}
					u = c.only.Unit
				}
				if u >= int64(units) {
					return
				}
				w.unit, w.seq = u, 0
				w.runUnit(f, int(u))
				if c.only == nil && time.Now().After(c.deadline) {
					c.mu.Lock()
					c.res.Deadline = true
					c.mu.Unlock()
					c.stop.Store(true)
				}
			}
		}(ws[i])
	}
	wg.Wait()
	st := &phaseStat{Name: name, Units: units, Outcomes: map[string]int64{}, Bound: bound, Complete: !c.stop.Load()}
	slowest := 0.0
	for _, w := range ws {
		slowest = max(slowest, w.slowest)
		st.Cases += w.cases
		st.States += w.states
		st.Trans += w.trans
		for k, v := range w.outcomes {
			st.Outcomes[k] += v
		}
	}
	st.Wall = time.Since(start).Seconds()
	c.mu.Lock()
	c.workers = nil
	for _, w := range ws {
		for k, n := range w.knownN {
			h := c.res.Known[k]
			h.Count += n
			c.res.Known[k] = h
		}
	}
	c.res.Phases = append(c.res.Phases, st)
	c.mu.Unlock()
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "  %s: cases=%d states=%d transitions=%d %.1fs (slowest case %.2fs) %v\n", name, st.Cases, st.States, st.Trans, st.Wall, slowest, st.Outcomes)
	}
}

// runUnit executes one unit. A panic outside of the cases of the unit, while
// they are prepared with the code under test, is reported as a violation.
func (w *W) runUnit(f func(w *W, unit int), u int) {
	defer func() {
		if r := recover(); r != nil {
			if w.c.tooBig(r) {
				return
			}
			st := string(debug.Stack())
			w.failed = false
			w.desc = func() string { return fmt.Sprintf("preparation of unit %d", u) }
			w.seq = -1
			w.Fail("panic: %v\n%s", r, trimStack(st))
		}
	}()
	f(w, u)
}

// Case executes one case of the current unit. It counts as one state of the
// explored space; body adds the transitions.
func (w *W) Case(desc func() string, body func()) {
	w.seq++
	c := w.c
	if c.only != nil {
		if w.seq != c.only.Seq {
			return
		}
		c.onlyRan.Store(true)
		fmt.Fprintf(os.Stderr, "case: %s\n", desc())
	}
	if c.stop.Load() {
		return
	}
	w.desc = desc
	w.note = ""
	w.failed = false
	w.cases++
	w.states++
	w.slot.Phase, w.slot.Unit, w.slot.Seq, w.slot.Active = w.phaseIdx, w.unit, w.seq, 1
	w.started.Add(1)
	w.running.Store(true)
	t0 := time.Now()
	w.protect(body)
	if d := time.Since(t0).Seconds(); d > w.slowest {
		w.slowest = d
	}
	w.running.Store(false)
	w.slot.Active = 0
	if w.nsamples < 1 && w.unit%7 == 0 {
		w.nsamples++
		w.c.sample(w.phase + ": " + desc())
	}
}

func (c *Ctx) sample(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Samples) < 24 {
		c.res.Samples = append(c.res.Samples, s)
	}
}

func (w *W) protect(body func()) {
	defer func() {
		if r := recover(); r != nil {
			if r == errStop {
				return
			}
			if w.c.tooBig(r) {
				return
			}
			st := string(debug.Stack())
			w.Fail("panic: %v\n%s", r, trimStack(st))
		}
	}()
	body()
}

// tooBig: a soft case asked for more memory than there can be.
func (c *Ctx) tooBig(r interface{}) bool {
	return c.inSoft.Load() && strings.Contains(fmt.Sprint(r), "makeslice")
}

var errStop = fmt.Errorf("stop")

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Fail reports that the case violates the property.
func (w *W) Fail(format string, a ...interface{}) {
	if w.failed {
		return
	}
	w.failed = true
	desc := "?"
	if w.desc != nil {
		desc = w.desc()
	}
	msg := fmt.Sprintf(format, a...)
	if w.note != "" {
		msg = w.note + ": " + msg
	}
	w.c.addViolation(violation{caseID{w.phase, w.unit, w.seq}, desc, msg})
}

func (c *Ctx) addViolation(v violation) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Violations = append(c.res.Violations, v)
	if len(c.res.Violations) >= 3 {
		c.stop.Store(true)
	}
}

// Known reports a deviation that is exactly a listed known finding. If the
// finding is not listed for this property it is a violation.
func (w *W) Known(key string, format string, a ...interface{}) {
	w.KnownF(key, func() string { return fmt.Sprintf(format, a...) })
}

func (w *W) KnownF(key string, msg func() string) {
	if !w.c.known[key] {
		w.Fail("%s", msg())
		return
	}
	if w.knownN == nil {
		w.knownN = map[string]int64{}
	}
	w.knownN[key]++
	if w.knownN[key] > 300 {
		return
	}
	s := w.desc() + ": " + msg()
	w.c.mu.Lock()
	defer w.c.mu.Unlock()
	if w.c.res.Known == nil {
		w.c.res.Known = map[string]knownHit{}
	}
	h := w.c.res.Known[key]
	if h.Sample == "" || len(s) < len(h.Sample) || len(s) == len(h.Sample) && s < h.Sample {
		h.Sample = s
	}
	w.c.res.Known[key] = h
}

func (w *W) Out(name string) { w.outcomes[name]++ }

// ---------------------------------------------------------------- watchdog

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, rss int64
	fmt.Sscan(string(b), &size, &rss)
	return rss * int64(os.Getpagesize())
}

const (
	hangCPU  = 60.0 // seconds of CPU time that the process used while one case ran
	hangWall = 60.0
	softWall = 25 // seconds for one step of a soft case
	memLimit = int64(10) << 30
)

type hangState struct {
	started int64
	steps   int64
	since   time.Time
	cpu     float64
}

// watchdog reports a case that does not end. A transition takes microseconds;
// the case is reported after both 60 s of wall time and 60 s of CPU time of this
// process in which it made no further transition, or if the process grows without bound while one case is running.
func (c *Ctx) watchdog(finish func()) {
	seen := map[*W]hangState{}
	for {
		time.Sleep(500 * time.Millisecond)
		c.mu.Lock()
		ws := c.workers
		c.mu.Unlock()
		now, cpu, rss := time.Now(), cpuSeconds(), rssBytes()
		var oldest *W
		for _, w := range ws {
			if !w.running.Load() {
				delete(seen, w)
				continue
			}
			st := w.started.Load()
			steps := int64(0)
			if !raceBuild {
				steps = w.trans + w.states // only looked at, a torn value does no harm
			}
			h, ok := seen[w]
			if !ok || h.started != st || h.steps != steps {
				seen[w] = hangState{st, steps, now, cpu}
				continue
			}
			if oldest == nil || h.since.Before(seen[oldest].since) {
				oldest = w
			}
		}
		if oldest == nil {
			continue
		}
		h := seen[oldest]
		wall := now.Sub(h.since).Seconds()
		hang := wall > hangWall && cpu-h.cpu > hangCPU
		mem := rss > memLimit && wall > 0.4
		if c.inSoft.Load() {
			if mem || wall > softWall || now.After(c.deadline.Add(softWall*time.Second)) {
				c.mu.Lock()
				c.res.Deadline = true
				c.mu.Unlock()
				finish()
			}
			continue
		}
		if hang || mem {
			what := "the case does not end"
			if mem {
				what = "the case does not end and allocates without bound"
			}
			desc := oldest.desc()
			c.addViolation(violation{caseID{oldest.phase, oldest.unit, oldest.seq}, desc, what})
			finish()
		}
	}
}

func mapSlots(path string) ([]slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := int(unsafe.Sizeof(slot{})) * maxSlots
	if err := f.Truncate(int64(size)); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return unsafe.Slice((*slot)(unsafe.Pointer(&b[0])), maxSlots), nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
