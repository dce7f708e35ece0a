package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// A job is a parse. It calls y wherever it can be interrupted and returns
// everything that it observed.
type job struct {
	name string
	run  func(y func()) string
}

// yTracker hands over control at every movement, with coarse only at
// movements to positions that were not reached before.
type yTracker struct {
	y      func()
	next   tok.Tracker
	coarse bool
	max    tok.Marker
}

func (t *yTracker) Update(m tok.Marker) {
	if t.coarse {
		if m <= t.max {
			if t.next != nil {
				t.next.Update(m)
			}
			return
		}
		t.max = m
	}
	t.y()
	if t.next != nil {
		t.next.Update(m)
	}
	t.y()
}

// yReader hands over control before and after a read and in its description.
type yReader struct {
	y   func()
	sub tok.Reader
}

func (r *yReader) Read(s *tok.Scanner) error {
	r.y()
	err := r.sub.Read(s)
	r.y()
	return err
}

func (r *yReader) What() string {
	r.y()
	return r.sub.What()
}

func grammarJob(name string, fresh func() tok.Grammar, t string, full, coarse bool) job {
	return job{name + " " + fmt.Sprintf("%q", t), func(y func()) string {
		y()
		g := fresh()
		y()
		s := tok.NewScanner(t)
		tr := &yTracker{y: y, coarse: coarse}
		out := ""
		if full {
			b := s.NewBasketFor(g)
			tr.next = b
			l := tok.MonitorGrammar(g)
			s.Tracker = tr
			out = outcomeOn(g, s)
			y()
			out += fmt.Sprint(segsOf(b.Picked()), len(l.Entries), l.Entries)
			gr := tok.BuildGraph("g", b.Picked())
			y()
			out += gr.FlameStack()
		} else {
			s.Tracker = tr
			out = outcomeOn(g, s)
		}
		y()
		return out + strings.Join(tok.GrammarLines(g.Grammar()), "\n")
	}}
}

func exprJob(name string, t string, build func(y func(), s *tok.Scanner) (tok.Reader, func() string)) job {
	return job{name + " " + fmt.Sprintf("%q", t), func(y func()) string {
		s := tok.NewScanner(t)
		y()
		r, more := build(y, s)
		s.Tracker = &yTracker{y: y, next: s.Tracker}
		y()
		out := r.What()
		y()
		out += outcomeOn(r, s)
		y()
		if more != nil {
			out += more()
		}
		line, col := s.LineCol(4)
		return out + s.Head() + "|" + s.Tail() + fmt.Sprint(line, col)
	}}
}

// shared readers without state, made when they are needed first: nothing of
// the package is used before the operations of a new process
type sharedReaders struct {
	word, space, big, any tok.Reader
}

var shared = sync.OnceValue(func() sharedReaders {
	r := sharedReaders{}
	r.word = tok.Many(tok.Set("a-zA-Z", "_"))
	r.space = tok.Zom(tok.WS())
	r.big = tok.Seq(r.space, tok.Any(tok.Seq("ab", tok.Not(tok.Lit("c"))), tok.Body(tok.Zom(tok.Rune('x')), tok.Lit("]")), tok.Seq(r.word, tok.Opt(',')), tok.Fold("K"), tok.To(tok.NL())), tok.Many(tok.Any(r.word, tok.Digit(), tok.Holey('0', 'z', "5"), tok.AnyRune(";:"))), tok.AtEnd())
	r.any = tok.Any(tok.SkipSeq(tok.Zom(' '), "a", tok.Many('b'), tok.Past(']')), tok.BodyTail(tok.Many(tok.Between('a', 'z')), tok.Lit("!")), tok.AnyFold("TRUE", "Kk"), tok.Times(2, tok.HexDigit()))
	return r
})

func scheduleJobs(coarse bool) []job {
	js := []job{
		grammarJob("json", func() tok.Grammar { return grammar.JSON() }, `{"a":1}`, true, false),
		grammarJob("json", func() tok.Grammar { return grammar.JSON() }, `["x",`, false, false),
		grammarJob("mxt", func() tok.Grammar { return grammar.MXT() }, "// a --> S\n//T\n//S b -->", false, coarse),
		grammarJob("mxt", func() tok.Grammar { return grammar.MXT() }, "// a --> T\n//S\n//T b", true, coarse),
		grammarJob("lua", func() tok.Grammar { return grammar.Lua() }, "x=[==[]]]==]", false, coarse),
		grammarJob("lua", func() tok.Grammar { return grammar.Lua() }, "--[=[]]]=]f''", false, coarse),
	}
	for _, x := range []struct{ text, lit string }{{"aaXaa", "a"}, {"bbXbb", "b"}} {
		x := x
		js = append(js, exprJob("janus", x.text, func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			beg, end := tok.Janus("n", tok.Zom(x.lit))
			return tok.Seq(beg, &yReader{y, tok.Lit("X")}, end, tok.AtEnd()), nil
		}))
	}
	js = append(js,
		exprJob("values", "12 true ff", func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			i, u, b := tok.Int(10, 8), tok.Uint(16, 16), tok.Bool("")
			return tok.Seq(i, ' ', &yReader{y, b}, ' ', u), func() string { return fmt.Sprint(i.Value, u.Value, b.Value) }
		}),
		exprJob("values", "-5 FALSE 1", func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			i, u, b := tok.Int(10, 8), tok.Uint(16, 16), tok.Bool("U")
			return tok.Seq(i, ' ', &yReader{y, b}, ' ', u), func() string { return fmt.Sprint(i.Value, u.Value, b.Value) }
		}),
		exprJob("choice", "abcd", func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			b, l := s.NewBasket(), &tok.Log{}
			calls := ""
			in := tok.Map(tok.Lit("b"), func(t tok.Token) { y(); calls += t.String() })
			return tok.Any(tok.Seq(tok.Pick(tok.Lit("a"), b, "p"), &yReader{y, tok.Monitor(in, l, "m")}, "x"), tok.Seq(tok.Pick(tok.Many(tok.Match("m", func(r rune) bool { y(); return r < 'd' })), b, "q"), 'y'), tok.Named("nm", tok.Seq("ab", &yReader{y, tok.Lit("z")}))), func() string { return fmt.Sprint(calls, segsOf(b.Picked()), l.Entries) }
		}),
		exprJob("choice", "abxy", func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			b, l := s.NewBasket(), &tok.Log{}
			return tok.Any(tok.Seq(tok.Pick(tok.Lit("a"), b, "p"), &yReader{y, tok.Monitor(tok.Lit("b"), l, "m")}, "y"), tok.Seq(tok.Pick(tok.Many(tok.Match("m", func(r rune) bool { y(); return r < 'd' })), b, "q"), tok.Body(&yReader{y, tok.Rune('x')}, tok.Lit("y")))), func() string { return fmt.Sprint(segsOf(b.Picked()), l.Entries) }
		}),
		exprJob("shared", " abd;0", func(y func(), s *tok.Scanner) (tok.Reader, func() string) { return shared().big, nil }),
		exprJob("shared", "xx]q\n", func(y func(), s *tok.Scanner) (tok.Reader, func() string) { return shared().big, nil }),
		exprJob("shared-any", "a bb]", func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			return tok.Seq(shared().any, &yReader{y, shared().word}), nil
		}),
		exprJob("shared-any", "xyz!a", func(y func(), s *tok.Scanner) (tok.Reader, func() string) {
			return tok.Seq(shared().any, &yReader{y, shared().word}), nil
		}),
	)
	js = append(js, job{"scanner moves", func(y func()) string {
		s := tok.NewScanner("aä b\n1 true\xff")
		s.Tracker = &yTracker{y: y}
		out := ""
		add := func(x interface{}) { out += fmt.Sprint(x, s.Mark(), ";"); y() }
		add(s.If("a"))
		add(s.To(" "))
		add(s.RevIfRune('ä'))
		add(s.WhileMatch(func(r rune) bool { y(); return r != '\n' }))
		add(s.ToEnd())
		add(s.RevToRune('1'))
		m := s.Mark()
		add(s.MoveRunes(-3))
		tk, err := s.TokenizeUse(tok.Many(tok.Match("any", func(r rune) bool { y(); return r != 't' })))
		add(s.Get(tk) + fmt.Sprint(err))
		add(s.ToMarker(m))
		add(s.Since(m))
		segs := []tok.Segment{{Info: "a", Token: tok.MakeToken(2, 4)}, {Info: "b", Token: tok.MakeToken(5, 7)}}
		parts, err := s.Segmentate(segs)
		add(fmt.Sprint(parts, err))
		v, err := s.ReadInt(10, 8)
		add(fmt.Sprint(v, err))
		return out
	}})
	return js
}

// ---------------------------------------------------------------- scheduler

// decision: at the n-th interruption point of the execution continue with another job.
type decision struct {
	point  int
	target int
}

type execution struct {
	outs []string
	run  []int // the running job at each point
}

type thread struct {
	resume chan bool
	state  chan bool // true: interrupted, false: finished
	done   bool
	out    string
}

// execute runs the jobs one at a time. Without decision the running job
// continues; when it ends, the next unfinished one (in cyclic order) continues.
func execute(jobs []job, first int, decs []decision) execution {
	ths := make([]*thread, len(jobs))
	for i := range jobs {
		th := &thread{resume: make(chan bool), state: make(chan bool)}
		ths[i] = th
		j := jobs[i]
		go func() {
			<-th.resume
			defer func() {
				if r := recover(); r != nil {
					th.out = fmt.Sprintf("panic: %v", r)
				}
				th.state <- false
			}()
			th.out = j.run(func() {
				th.state <- true
				<-th.resume
			})
		}()
	}
	ex := execution{}
	cur, left, d := first, len(jobs), 0
	for left > 0 {
		th := ths[cur]
		th.resume <- true
		if <-th.state {
			n := len(ex.run)
			ex.run = append(ex.run, cur)
			if d < len(decs) && decs[d].point == n {
				cur = decs[d].target
				d++
			}
			continue
		}
		th.done = true
		left--
		for i := 1; i <= len(ths) && left > 0; i++ {
			if !ths[(cur+i)%len(ths)].done {
				cur = (cur + i) % len(ths)
				break
			}
		}
	}
	for _, th := range ths {
		ex.outs = append(ex.outs, th.out)
	}
	return ex
}

// plan is the model of execute: jobs are their numbers of interruption points.
// It returns the running job at each point of the execution.
func plan(lens []int, first int, decs []decision) []int {
	left := append([]int{}, lens...)
	unfinished := len(lens)
	done := make([]bool, len(lens))
	res := []int{}
	cur, d := first, 0
	for unfinished > 0 {
		if left[cur] > 0 {
			left[cur]--
			res = append(res, cur)
			if d < len(decs) && decs[d].point == len(res)-1 {
				cur = decs[d].target
				d++
			}
			continue
		}
		done[cur] = true
		unfinished--
		for i := 1; i <= len(lens) && unfinished > 0; i++ {
			if n := (cur + i) % len(lens); !done[n] {
				cur = n
				break
			}
		}
	}
	return res
}

// schedules enumerates all schedules of the model with up to max preemptions
// and replays each of them with the real parses.
func schedules(w *W, jobs []job, lens []int, want []string, max int) {
	var walk func(first int, decs []decision)
	walk = func(first int, decs []decision) {
		p := plan(lens, first, decs)
		w.Case(func() string {
			ns := []string{}
			for _, j := range jobs {
				ns = append(ns, j.name)
			}
			return fmt.Sprintf("%s, first %d, preemptions %v", strings.Join(ns, " | "), first, decs)
		}, func() {
			w.trans += int64(len(p)) + 1
			ex := execute(jobs, first, decs)
			for i, o := range ex.outs {
				if o != want[i] {
					w.Fail("%s: %s; alone %s", jobs[i].name, o, want[i])
					return
				}
			}
			if fmt.Sprint(ex.run) == fmt.Sprint(p) {
				w.Out("as planned")
			} else {
				w.Out("other interruption points than alone")
			}
		})
		if len(decs) == max {
			return
		}
		from := 0
		if len(decs) > 0 {
			from = decs[len(decs)-1].point + 1
		}
		for n := from; n < len(p); n++ {
			for k := range jobs {
				// a finished job can't be continued
				if k == p[n] || !runsAfter(p, k, n) {
					continue
				}
				walk(first, append(decs[:len(decs):len(decs)], decision{n, k}))
			}
		}
	}
	for first := range jobs {
		walk(first, nil)
	}
}

// runsAfter: job k has an interruption point after n, every job has one before it ends.
func runsAfter(p []int, k, n int) bool {
	for i := len(p) - 1; i > n; i-- {
		if p[i] == k {
			return true
		}
	}
	return false
}

func alone(jobs []job) []string {
	res := []string{}
	for _, j := range jobs {
		res = append(res, j.run(func() {}))
	}
	return res
}

// --------------------------------------------------------------- operations

// operations of the package, each with own values
func raceOps() []job {
	ops := []job{}
	for _, j := range scheduleJobs(true) {
		j := j
		ops = append(ops, job{j.name, func(y func()) string { return j.run(func() {}) }})
	}
	add := func(name string, f func() string) { ops = append(ops, job{name, func(func()) string { return f() }}) }
	for _, e := range cat(richLeaves(), allUnary(baseLeaves()[:2]), allBinary(fewLeaves()[:2], fewLeaves()[:1])) {
		e := e
		add("expression "+e.String(), func() string {
			r := (&builder{}).build(e)
			return r.What() + readOutcome(r, "ab") + readOutcome(r, "ä1") + r.What()
		})
	}
	add("segments", func() string {
		segs := []tok.Segment{{Info: "b", Token: tok.MakeToken(2, 4)}, {Info: "a", Token: tok.MakeToken(2, 4)}, {Info: "c", Token: tok.MakeToken(0, 9)}, {Info: "d", Token: tok.MakeToken(5, 5)}}
		tok.SortSegments(segs)
		out := fmt.Sprint(segs)
		tok.SortSegmentsByOrder(segs, []string{"a", "b"})
		return out + fmt.Sprint(segs)
	})
	add("graph", func() string {
		g := tok.NewGraph("g")
		out := ""
		for _, s := range []tok.Segment{{Info: "b", Token: tok.MakeToken(2, 4)}, {Info: "c", Token: tok.MakeToken(0, 9)}, {Info: "d", Token: tok.MakeToken(3, 5)}} {
			out += fmt.Sprint(g.Append(s))
		}
		return out + g.FlameStack() + fmt.Sprint(g.Leafs(), g.Equal(g))
	})
	add("tokens", func() string {
		a, b := tok.MakeToken(1, 5), tok.MakeToken(3, 8)
		l, r := a.Split(b)
		return fmt.Sprint(a.Before(b), a.After(b), a.Covers(b), a.Clashes(b), a.Merge(b), l, r, a.Len(), a.String())
	})
	add("errors", func() string {
		s := tok.NewScanner("x")
		err := s.ErrorFor("what")
		var re tok.ReadError
		return fmt.Sprint(err, errors.As(err, &re), s.ErrorIfFalse(false, "y"), s.ErrorIfFalse(true, "z"))
	})
	add("grammars", func() string {
		out := ""
		for _, g := range []tok.Grammar{grammar.JSON(), grammar.MXT(), grammar.Lua()} {
			out += strings.Join(tok.GrammarLines(g.Grammar()), "\n") + fmt.Sprint(tok.CheckRules(g), tok.SetRuleNames(g))
		}
		return out
	})
	add("names", func() string {
		return fmt.Sprint(tok.CheckRuleName("a-b"), tok.CheckRuleName("1"), tok.RuleName().What(), readOutcome(tok.RuleName(), "ab c"))
	})
	add("invalid", func() string {
		return fmt.Sprint(tok.Any(1).What(), tok.BetweenAny("x").What(), tok.HasInvalidReader("x"), tok.AnyHasInvalidReader([]string{"y"}), readOutcome(tok.Opt(nil), "a"))
	})
	add("lua parts", func() string {
		return readOutcome(grammar.LuaNumeral(), "0x1p4") + readOutcome(grammar.LuaString(), "[=[a]=]") + readOutcome(grammar.LuaComment(), "--x\n")
	})
	add("shared", func() string {
		return shared().big.What() + readOutcome(shared().big, " abd;0") + readOutcome(shared().big, "xx]q\n") + readOutcome(shared().any, "xyz!") + readOutcome(shared().any, "true") + shared().any.What()
	})
	ks := ops1()
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		add("scanner "+k, func() string { return scannerOp(k) })
	}
	return ops
}

func ops1() []string {
	res := []string{}
	for k := range scannerOps {
		res = append(res, k)
	}
	return res
}

func scannerOp(k string) string {
	s := tok.NewScanner("aä 1 TRUE\r\n\tb")
	s.Move(5)
	out := scannerOps[k](s)
	return fmt.Sprint(out, s.Mark())
}

var scannerOps = map[string]func(s *tok.Scanner) interface{}{
	"If":           func(s *tok.Scanner) interface{} { return s.If("1") },
	"IfAny":        func(s *tok.Scanner) interface{} { return s.IfAny("x", "1") },
	"IfFold":       func(s *tok.Scanner) interface{} { return s.IfFold("1 true") },
	"IfAnyRune":    func(s *tok.Scanner) interface{} { return s.IfAnyRune("01") },
	"ToFold":       func(s *tok.Scanner) interface{} { return s.ToFold("true") },
	"To":           func(s *tok.Scanner) interface{} { return s.To("TRUE") },
	"ToBetween":    func(s *tok.Scanner) interface{} { return s.ToBetween('a', 'z') },
	"WhileAnyRune": func(s *tok.Scanner) interface{} { return s.WhileAnyRune("1 T") },
	"WhileBetween": func(s *tok.Scanner) interface{} { return s.WhileBetween('0', '9') },
	"RevIf":        func(s *tok.Scanner) interface{} { return s.RevIf(" ") },
	"RevTo":        func(s *tok.Scanner) interface{} { return s.RevTo("a") },
	"RevIfFold":    func(s *tok.Scanner) interface{} { return s.RevIfFold("Ä ") },
	"RevWhile":     func(s *tok.Scanner) interface{} { return s.RevWhileAnyRune(" ä") },
	"ReadInt":      func(s *tok.Scanner) interface{} { v, e := s.ReadInt(16, 8); return fmt.Sprint(v, e) },
	"ReadUint":     func(s *tok.Scanner) interface{} { v, e := s.ReadUint(10, 64); return fmt.Sprint(v, e) },
	"ReadBool":     func(s *tok.Scanner) interface{} { s.Move(2); v, e := s.ReadBool("*"); return fmt.Sprint(v, e) },
	"ReadRune":     func(s *tok.Scanner) interface{} { v, e := s.ReadRune(); return fmt.Sprint(v, e) },
	"RevReadRune":  func(s *tok.Scanner) interface{} { v, e := s.RevReadRune(); return fmt.Sprint(v, e) },
	"MoveRunes":    func(s *tok.Scanner) interface{} { return s.MoveRunes(-2) },
	"LineCol":      func(s *tok.Scanner) interface{} { s.ToEnd(); l, c := s.LineCol(8); return fmt.Sprint(l, c) },
	"CaptureUse":   func(s *tok.Scanner) interface{} { v, e := s.CaptureUse(tok.Digit()); return fmt.Sprint(v, e) },
	"TraceUse":     func(s *tok.Scanner) interface{} { v, e := s.TraceUse(tok.Digit()); return fmt.Sprint(v, e) },
}

func checkC29(c *Ctx) {
	type group []int
	// space enumerates the schedules of all groups of m jobs
	space := func(name string, jobs []job, m, max, limit int, repeat bool) {
		lens := make([]int, len(jobs))
		for i, j := range jobs {
			j.run(func() { lens[i]++ })
		}
		want := alone(jobs)
		groups, skipped := []group{}, 0
		var pick func(g group, from int)
		pick = func(g group, from int) {
			if len(g) == m {
				sum, n := 0, 1
				for _, i := range g {
					sum += lens[i]
				}
				for i := 0; i < max; i++ {
					n *= sum
				}
				if n > limit {
					skipped++
				} else {
					groups = append(groups, g)
				}
				return
			}
			for i := from; i < len(jobs); i++ {
				next := i + 1
				if repeat {
					next = i
				}
				pick(append(g[:len(g):len(g)], i), next)
			}
		}
		pick(nil, 0)
		c.Phase(name, fmt.Sprintf("%d groups of %d parses, all schedules with up to %d preemptions (not %d groups with too many interruption points)", len(groups), m, max, skipped), len(groups), func(w *W, u int) {
			js, ls, ws := []job{}, []int{}, []string{}
			for _, i := range groups[u] {
				js, ls, ws = append(js, jobs[i]), append(ls, lens[i]), append(ws, want[i])
			}
			schedules(w, js, ls, ws, max)
		})
	}
	coarse := scheduleJobs(true)
	space("schedules-2-2", coarse, 2, 2, c.quickOr(4000, 40000), true)
	space("schedules-2-1", coarse, 2, 1, c.quickOr(200, 1000000), true)
	space("schedules-3-1", coarse, 3, 1, c.quickOr(80, 1000000), false)
	if c.thorough {
		space("schedules-2-1-all", scheduleJobs(false), 2, 1, 700, true)
		space("schedules-2-3", coarse, 2, 3, 40000, true)
		space("schedules-3-2", coarse, 3, 2, 10000, false)
	}
	ops := raceOps()
	want := alone(ops)
	k := len(ops)
	c.Phase("operations", fmt.Sprintf("all ordered pairs of %d operations without synchronisation, under the race detector", k), k, func(w *W, u int) {
		for v := 0; v < k; v++ {
			v := v
			w.Case(func() string { return ops[u].name + " | " + ops[v].name }, func() {
				w.trans++
				outs := atOnce(ops, []int{u, v})
				if outs[0] != want[u] || outs[1] != want[v] {
					w.Fail("%s; alone %s; and %s; alone %s", outs[0], want[u], outs[1], want[v])
				}
			})
		}
	})
	// new processes, in which nothing of the package was used before
	groups := [][]int{}
	for i := range ops {
		groups = append(groups, []int{i, i})
	}
	whole := []int{}
	for i := range ops {
		whole = append(whole, i)
	}
	groups = append(groups, whole)
	c.Phase("cold", fmt.Sprintf("each of %d operations twice at once, and all of them at once, in new processes, without synchronisation, under the race detector", k), len(groups), func(w *W, u int) {
		coldCase(w, ops, want, groups[u])
	})
	coarseOps := []int{}
	for i, o := range ops {
		if c.thorough || !strings.HasPrefix(o.name, "expression ") {
			coarseOps = append(coarseOps, i)
		}
	}
	n := len(coarseOps)
	c.Phase("cold-pairs", fmt.Sprintf("all pairs of %d operations in new processes, without synchronisation, under the race detector", n), n, func(w *W, u int) {
		for v := 0; v < u; v++ {
			coldCase(w, ops, want, []int{coarseOps[v], coarseOps[u]})
		}
	})
	// one after another: nothing that was done before changes a reader
	c.Phase("operations-in-order", fmt.Sprintf("each of %d operations before and after each other one", k), k, func(w *W, u int) {
		w.Case(func() string { return ops[u].name }, func() {
			for v := 0; v < k; v++ {
				w.trans += 2
				ops[v].run(func() {})
				if got := ops[u].run(func() {}); got != want[u] {
					w.Fail("after %s: %s; alone %s", ops[v].name, got, want[u])
					return
				}
			}
		})
	})
	sharedLists(c)
}

// atOnce runs operations concurrently and returns their outcomes.
func atOnce(ops []job, is []int) []string {
	var wg sync.WaitGroup
	start := make(chan bool)
	outs := make([]string, len(is))
	for x, i := range is {
		wg.Add(1)
		go func(x, i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					outs[x] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			outs[x] = ops[i].run(func() {})
		}(x, i)
	}
	close(start)
	wg.Wait()
	return outs
}

// cold is the command of the new processes: it runs the operations with the
// given numbers at once and prints their outcomes.
func cold(arg string) {
	ops, is := raceOps(), []int{}
	for _, a := range strings.Split(arg, ",") {
		i, err := strconv.Atoi(a)
		if err != nil || i < 0 || i >= len(ops) {
			fmt.Fprintln(os.Stderr, usage)
			os.Exit(2)
		}
		is = append(is, i)
		if strings.HasPrefix(ops[i].name, "shared") {
			shared()
		}
	}
	b, _ := json.Marshal(atOnce(ops, is))
	os.Stdout.Write(b)
}

func coldCase(w *W, ops []job, want []string, is []int) {
	w.Case(func() string {
		names := []string{}
		for _, i := range is {
			names = append(names, ops[i].name)
		}
		if len(names) > 5 {
			names = append(names[:5], fmt.Sprintf("... (%d)", len(is)))
		}
		return strings.Join(names, " | ")
	}, func() {
		w.trans += int64(len(is))
		nums := []string{}
		for _, i := range is {
			nums = append(nums, fmt.Sprint(i))
		}
		cmd := exec.Command("/proc/self/exe", "cold", strings.Join(nums, ","))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var errb tailBuffer
		cmd.Stderr = &errb
		b, err := cmd.Output()
		outs := []string{}
		if err != nil || json.Unmarshal(b, &outs) != nil || len(outs) != len(is) {
			w.Fail("the new process ends with %v\n%s", err, errb.String())
			return
		}
		for x, i := range is {
			if outs[x] != want[i] {
				w.Fail("%s: %s; alone %s", ops[i].name, outs[x], want[i])
				return
			}
		}
	})
}

// sharedLists: readers that are made one after another from one list of arguments,
// which is overwritten in between, keep the arguments they were made from.
func sharedLists(c *Ctx) {
	type maker struct {
		name string
		n    int // number of different elements
		list func() interface{}
		set  func(list interface{}, i, k int)
		mk   func(list interface{}, n int) tok.Reader
	}
	elems := []interface{}{"a", 'b', tok.Lit("ab")}
	some := func(name string, mk func(l ...interface{}) tok.Reader) maker {
		return maker{name, 3, func() interface{} { return make([]interface{}, 3, 8) },
			func(l interface{}, i, k int) { l.([]interface{})[i] = elems[k] },
			func(l interface{}, n int) tok.Reader { return mk(l.([]interface{})[:n]...) }}
	}
	words := []string{"a", "B", "ab"}
	bounds := []rune{'a', 'b', 'ä'}
	makers := []maker{
		some("Seq", tok.Seq),
		some("Any", tok.Any),
		some("SkipSeq", func(l ...interface{}) tok.Reader { return tok.SkipSeq(tok.Opt(' '), l...) }),
		some("SkipWSSeq", tok.SkipWSSeq),
		{"AnyFold", 3, func() interface{} { return make([]string, 3, 8) }, func(l interface{}, i, k int) { l.([]string)[i] = words[k] }, func(l interface{}, n int) tok.Reader { return tok.AnyFold(l.([]string)[:n]...) }},
		{"BuildBetweenAny", 3, func() interface{} { return make([]rune, 4, 8) }, func(l interface{}, i, k int) { l.([]rune)[i] = bounds[k]; l.([]rune)[3] = 'z' }, func(l interface{}, n int) tok.Reader { return tok.BuildBetweenAny(l.([]rune)[:n+n%2]...) }},
	}
	txts := texts([]string{"a", "b", " ", "ä"}, 4)
	c.Phase("shared-lists", fmt.Sprintf("%d constructors: all pairs of contents of one list of up to 3 of 3 arguments", len(makers)), len(makers)*27, func(w *W, u int) {
		m, a := makers[u/27], u%27
		fill := func(l interface{}, x int) {
			for i := 0; i < 3; i++ {
				m.set(l, i, x%3)
				x /= 3
			}
		}
		w.Case(func() string { return fmt.Sprintf("%s, contents %d", m.name, a) }, func() {
			for n := 1; n <= 3; n++ {
				for b := 0; b < 27; b++ {
					l := m.list()
					fill(l, a)
					r1 := m.mk(l, n)
					fill(l, b)
					r2 := m.mk(l, n)
					la, lb := m.list(), m.list()
					fill(la, a)
					fill(lb, b)
					w1, w2 := m.mk(la, n), m.mk(lb, n)
					for _, x := range [][2]tok.Reader{{r1, w1}, {r2, w2}} {
						if x[0].What() != x[1].What() {
							w.Fail("%d arguments, then contents %d: described by %q, expected %q", n, b, x[0].What(), x[1].What())
							return
						}
						if b > a {
							continue
						}
						for _, t := range txts {
							s1, s2 := tok.NewScanner(t), tok.NewScanner(t)
							e1, e2 := x[0].Read(s1), x[1].Read(s2)
							w.trans++
							if (e1 == nil) != (e2 == nil) || s1.Mark() != s2.Mark() {
								w.Fail("%d arguments, then contents %d: %q read to %d (%v), expected %d (%v)", n, b, t, s1.Mark(), e1, s2.Mark(), e2)
								return
							}
						}
					}
				}
			}
		})
	})
}
