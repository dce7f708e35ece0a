package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type check struct {
	id    string
	rule  string // how the space is enumerated, what is compared
	run   func(c *Ctx)
	assum []string
}

var checks = map[string]*check{}

func register(id, rule string, run func(c *Ctx), assum ...string) {
	checks[id] = &check{id, rule, run, assum}
}

const usage = "usage: mc check ID quick|thorough | mc replay FILE | mc list"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
	case "check":
		os.Exit(supervise(os.Args[2], os.Args[3]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "child":
		child()
	case "deep":
		i, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		deepRead(i, n)
	case "cold":
		cold(os.Args[2])
	default:
		fmt.Fprintln(os.Stderr, usage)
		os.Exit(2)
	}
}

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads the lines "known: property=<id> key=<key> <text>".
func loadKnown(id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		res[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return res
}

// ------------------------------------------------------------------- child

// child ID TIER SLOTFILE RESULTFILE [PHASE UNIT SEQ]
func child() {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	a := os.Args[2:]
	ck := checks[a[0]]
	c := &Ctx{id: a[0], thorough: a[1] == "thorough", known: map[string]bool{}}
	for k := range loadKnown(c.id) {
		c.known[k] = true
	}
	var err error
	c.slots, err = mapSlots(a[2])
	c.namesFile = a[2] + ".names"
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	limit := 700 * time.Second
	if c.thorough {
		limit = 6 * time.Hour
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		if n, e := strconv.Atoi(s); e == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	c.deadline = time.Now().Add(limit)
	if len(a) >= 7 {
		u, _ := strconv.ParseInt(a[5], 10, 64)
		q, _ := strconv.ParseInt(a[6], 10, 64)
		c.only = &caseID{a[4], u, q}
	}
	write := func() { // with c.mu
		c.res.OnlyRan = c.onlyRan.Load()
		b, _ := json.Marshal(childResult{c.res, c.phaseNames})
		os.WriteFile(a[3]+".new", b, 0o644)
		os.Rename(a[3]+".new", a[3]) // never half a result
	}
	finish := func() {
		c.mu.Lock()
		write()
		os.Exit(0)
	}
	go c.watchdog(finish)
	defer func() {
		// a panic of the code under test while a phase is prepared
		if r := recover(); r != nil {
			c.addViolation(violation{caseID{"*", 0, 0}, "preparation of the exploration", fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))})
			finish()
		}
	}()
	ck.run(c)
	if d := time.Now().Add(150 * time.Second); !c.thorough && d.Before(c.deadline) {
		c.deadline = d
	}
	for _, f := range c.soft {
		// if the process dies in this phase, what was found so far counts
		c.mu.Lock()
		d := c.res.Deadline
		c.res.Deadline = true
		write()
		c.res.Deadline = d
		c.mu.Unlock()
		c.inSoft.Store(true)
		f()
	}
	finish()
}

type childResult struct {
	result
	Names []string `json:"names"`
}

type childEnd struct {
	res    *childResult
	crash  string // description of a crash
	inFly  []slot
	names  []string
	stderr string
}

func runChild(id, tier string, only *caseID) (childEnd, error) {
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		return childEnd{}, err
	}
	defer os.RemoveAll(dir)
	slotFile, resFile := filepath.Join(dir, "slots"), filepath.Join(dir, "result.json")
	args := []string{"child", id, tier, slotFile, resFile}
	if only != nil {
		args = append(args, only.Phase, fmt.Sprint(only.Unit), fmt.Sprint(only.Seq))
	}
	cmd := exec.Command("/proc/self/exe", args...)
	var errb tailBuffer
	cmd.Stderr = &errb
	cmd.Stdout = os.Stdout
	if os.Getenv("MC_VERBOSE") != "" {
		cmd.Stderr = os.Stderr
	}
	runErr := cmd.Run()
	end := childEnd{stderr: errb.String()}
	if b, e := os.ReadFile(resFile); e == nil {
		r := &childResult{}
		if json.Unmarshal(b, r) == nil {
			end.res = r
			return end, nil
		}
	}
	end.crash = fmt.Sprint(runErr)
	if sl, e := mapSlots(slotFile); e == nil {
		if b, e := os.ReadFile(slotFile + ".names"); e == nil {
			end.names = strings.Split(string(b), "\n")
		}
		for _, s := range sl {
			if s.Active != 0 {
				end.inFly = append(end.inFly, s)
			}
		}
	}
	return end, nil
}

// tailBuffer keeps the beginning of the output.
type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string {
	s := string(t.b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// ---------------------------------------------------------------- supervisor

func supervise(id, tier string) int {
	ck, ok := checks[id]
	if !ok || (tier != "quick" && tier != "thorough") {
		fmt.Fprintln(os.Stderr, usage)
		return 2
	}
	start := time.Now()
	end, err := runChild(id, tier, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var viols []violation
	if end.res == nil {
		// The process died: a fatal error of the runtime (stack overflow, out of
		// memory) that cannot be recovered. Find the case that was running.
		viols = crashViolations(id, tier, end)
		if viols == nil {
			fmt.Fprintf(os.Stderr, "check process ended without result: %s\n%s\n", end.crash, end.stderr)
			return 2
		}
		end.res = &childResult{}
	} else {
		viols = end.res.Violations
	}
	known := loadKnown(id)
	for _, k := range sortedKeys(end.res.Known) {
		h := end.res.Known[k]
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s (%d cases, e.g. %s)\n", id, k, known[k], h.Count, oneLine(h.Sample, 300))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	writeEvidence(ck, tier, seed, end.res, viols, time.Since(start).Seconds())
	for i, v := range viols {
		path, reproduced := writeReplay(id, tier, i, v)
		fmt.Printf("case: %s\n%s\n", v.Desc, v.Msg)
		fmt.Printf("reproduced alone: %s\n", reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	if len(viols) > 0 {
		return 1
	}
	tot := totals(end.res)
	fmt.Printf("%s %s: held; cases=%d states=%d transitions=%d in %.1fs%s\n", id, tier, tot.Cases, tot.States, tot.Trans, time.Since(start).Seconds(),
		map[bool]string{true: " (deadline reached, not exhaustive)", false: ""}[end.res.Deadline])
	return 0
}

func oneLine(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

func crashViolations(id, tier string, end childEnd) []violation {
	names := end.names
	for _, s := range end.inFly {
		if s.Phase < 0 || int(s.Phase) >= len(names) {
			continue
		}
		cid := caseID{names[s.Phase], s.Unit, s.Seq}
		e, err := runChild(id, tier, &cid)
		if err != nil {
			continue
		}
		if e.res == nil {
			return []violation{{cid, caseDesc(e.stderr), "the process dies: " + e.crash + "\n" + e.stderr}}
		}
		if len(e.res.Violations) > 0 {
			return e.res.Violations
		}
	}
	if strings.Contains(end.stderr, "WARNING: DATA RACE") {
		// a report of the race detector is a proof, even if the race isn't seen again
		return []violation{{caseID{"*", 0, 0}, "whole exploration", end.stderr}}
	}
	// not reproducible alone: run everything once more
	e, err := runChild(id, tier, nil)
	if err != nil {
		return nil
	}
	if e.res != nil {
		return nil
	}
	return []violation{{caseID{"*", 0, 0}, "whole exploration", "the process dies repeatedly: " + e.crash + "\n" + e.stderr}}
}

func caseDesc(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "case: ") {
			return strings.TrimPrefix(l, "case: ")
		}
	}
	return "?"
}

type total struct{ Cases, States, Trans int64 }

func totals(r *childResult) total {
	t := total{}
	for _, p := range r.Phases {
		t.Cases += p.Cases
		t.States += p.States
		t.Trans += p.Trans
	}
	return t
}

func writeEvidence(ck *check, tier string, seed int, r *childResult, viols []violation, wall float64) {
	t := totals(r)
	exhaustive := !r.Deadline && len(viols) == 0
	outcomes := map[string]int64{}
	for _, p := range r.Phases {
		if !p.Complete {
			exhaustive = false
		}
		for k, v := range p.Outcomes {
			outcomes[k] += v
		}
	}
	samples := []interface{}{}
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	known := map[string]int64{}
	for k, h := range r.Known {
		known[k] = h.Count
	}
	ev := map[string]interface{}{
		"property": ck.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        t.States,
			"transitions":                   t.Trans,
			"traces_validated_against_impl": t.Cases,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
			"rule":                          ck.rule,
			"outcomes":                      outcomes,
			"phases":                        r.Phases,
			"known_finding_cases":           known,
			"extra":                         r.Extra,
		},
		"assumptions": append([]string{"the reference models in /verif/mc are the specification", "behaviour outside of the stated alphabets and bounds is not covered"}, ck.assum...),
		"wall_s":      wall,
		"violations":  len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, ck.id+".json"), append(b, '\n'), 0o644)
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Case     caseID `json:"case"`
	Desc     string `json:"desc"`
	Msg      string `json:"msg"`
	How      string `json:"how"`
}

func writeReplay(id, tier string, i int, v violation) (string, string) {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
	b, _ := json.MarshalIndent(replayFile{id, tier, v.Case, v.Desc, v.Msg, "cd /verif && ./run.sh replay " + path}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	if i > 0 || strings.Contains(v.Msg, "does not end") {
		return path, "not tried"
	}
	n := 0
	for k := 0; k < 3; k++ {
		e, err := runChild(id, tier, &v.Case)
		if err == nil && (e.res == nil || len(e.res.Violations) > 0) {
			n++
		}
	}
	return path, fmt.Sprintf("%d of 3 (0 means that the violation depends on the cases before it)", n)
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e, err := runChild(r.Property, r.Tier, &r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if e.res == nil {
		fmt.Printf("case: %s\nthe process dies: %s\n%s\nVIOLATION property=%s replay=%s\n", r.Desc, e.crash, e.stderr, r.Property, path)
		return 1
	}
	for _, v := range e.res.Violations {
		fmt.Printf("case: %s\n%s\nVIOLATION property=%s replay=%s\n", v.Desc, v.Msg, r.Property, path)
	}
	if len(e.res.Violations) > 0 {
		return 1
	}
	fmt.Printf("case ran: %v; no violation\n", e.res.OnlyRan)
	return 0
}
