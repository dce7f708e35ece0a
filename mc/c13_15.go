package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

func init() {
	register("C13", "every sequence of attempts with the readers of one or two Janus pairs at every position, and every expression of the Janus spaces on sequences of texts; result compared with the reference semantics in which the second reader matches the last match of the first", checkC13)
	register("C14", "every reader expression of the spaces with picks on all nodes and on each single node, on every text and in sequences of reads on one scanner; the basket compared with the picks of the successful path", checkC14)
	register("C15", "every reader expression of the spaces with every kind of wrapper on all nodes and on each single node compared with the plain reader; map calls and log entries compared with the probes inside of the wrappers", checkC15)
}

// ---------------------------------------------------------------------- C13

// judgeJanus reads the texts with fresh readers and with readers that have
// read all texts before; the model follows both histories.
type judgeJanus struct {
	e     *ex
	r     tok.Reader
	state map[string]string
	fresh bool
}

func (j *judgeJanus) begin(w *W, e *ex) {
	j.e = e
	j.r = (&builder{w: w}).build(e)
	j.state = map[string]string{}
}

func (j *judgeJanus) text(w *W, t string, p int) {
	w.trans++
	r, state := j.r, j.state
	if j.fresh {
		r, state = (&builder{w: w}).build(j.e), map[string]string{}
	}
	in := interp{t: t, janus: state}
	before := fmt.Sprintf("%q", state)
	want := in.eval(j.e, p, len(t))
	s := at(w, t, p)
	w.note = t
	err := r.Read(s)
	if (err == nil) != want.ok || want.ok && int(s.Mark()) != want.pos {
		w.Fail("at %d, pairs expect %s: error %v, at %d; expected ok=%v at %d", p, before, err, s.Mark(), want.ok, want.pos)
	}
}

func (j *judgeJanus) end(w *W) {}

type janusPart struct {
	name string
	sub  func() *ex
}

func checkC13(c *Ctx) {
	longTexts(c, longCalls("C13"))
	explore(c, renamed(janusSpaces(c), "fresh-"), func() judge { return &judgeJanus{fresh: true} })
	explore(c, renamed(janusSpaces(c), "history-"), func() judge { return &judgeJanus{} })
	// more expressions: two pairs, bodies, rules, deep nesting
	bj, ej := eJBeg("j", eUn(kZom, eLit("a"))), eJEnd("j")
	bk, ek := eJBeg("k", eAnyRune("ab")), eJEnd("k")
	parts := []*ex{bj, ej, bk, ek, eUn(kOpt, eSeq(ej, eLit("b"))), eUn(kOpt, eSeq(bk, ek)), eUn(kZom, eSeq(bk, ek)), eAny(eSeq(bj, eLit("x")), eSeq(bk, ek), eLit("b"))}
	list := []*ex{}
	for _, a := range parts {
		for _, b := range parts {
			for _, d := range parts {
				for _, f := range parts {
					list = append(list, eSeq(a, b, d, f))
				}
			}
		}
	}
	explore(c, []space{listSpace("two-pairs", "four parts around two Janus pairs", list, texts([]string{"a", "b"}, 4), false)}, func() judge { return &judgeJanus{} })
	list = nil
	in := []*ex{eSeq(bj, eLit("b"), ej), eSeq(bj, eUn(kTo, ej)), eSeq(eUn(kOpt, eSeq(bj, eLit("x"))), eUn(kZom, eSeq(eUn(kNot, ej)))), eSeq(bj, eUn(kPast, eSeq(eLit("b"), ej)))}
	for _, e := range in {
		list = append(list, e, eBin(kBody, e, eLit("b")), eBin(kBodyTail, e, eLit("b")), eUn(kTo, e), eUn(kPast, e), eUn(kNot, e), eUn(kAt, e), eTimes(2, e), eRule("r", e), eNamed("n", e), eSkipWS(e, e),
			eSeq(eLit("b"), e, eUn(kOpt, e)), eUn(kZom, eAny(e, eLit("b"))), eSeq(bj, eBin(kBody, eUn(kZom, eUn(kNot, eAtEnd())), ej)), eSeq(bj, eLit("b"), eBin(kBodyTail, eUn(kZom, eUn(kNot, eAtEnd())), ej)))
	}
	explore(c, []space{listSpace("around", "pairs inside of bodies, look-aheads, repetitions and rules", list, texts([]string{"a", "b"}, c.quickOr(8, 11)), true)}, func() judge { return &judgeJanus{} })
	janusHistories(c)
	// two matches after each other
	{
		top := c.quickOr(9, 11)
		list := texts([]string{"a", "b"}, top)
		overList(c, "successive-matches", fmt.Sprintf("first reader matched one and then another text of {a b} of the same length up to %d (or one shorter), every pair; the second reader expects the last one", top), list, 8, func(w *W, a string) {
			w.Case(func() string { return fmt.Sprintf("matched %q first", a) }, func() {
				beg, end := tok.Janus("x", tok.To("|"))
				for _, b := range list {
					if len(b) != len(a) && len(b) != len(a)-1 {
						continue
					}
					beg.Read(tok.NewScanner(a + "|"))
					if err := beg.Read(tok.NewScanner(b + "|")); err != nil {
						w.Fail("then %q: %v", b, err)
					}
					s := tok.NewScanner(b)
					w.trans += 4
					w.states++
					if err := end.Read(s); err != nil || int(s.Mark()) != len(b) {
						w.Fail("then %q, second reader: %v at %d", b, err, s.Mark())
					}
					s = tok.NewScanner(a)
					if err := end.Read(s); (err == nil) != strings.HasPrefix(a, b) {
						w.Fail("then %q, second reader on the first text: %v", b, err)
					}
				}
			})
		})
	}
	// lengths of the matched string
	sized(c, "lengths", "first reader matched 0..300 runes, all lengths of the text at the second reader around it", 0, 300, 4097, func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("matched %d runes", n) }, func() {
			for _, sym := range []string{"=", "ä"} {
				beg, end := tok.Janus("x", tok.Zom(sym))
				for _, m := range []int{0, 1, n - 1, n, n + 1, 2 * n, 300} {
					if m < 0 {
						continue
					}
					t := strings.Repeat(sym, n) + "|" + strings.Repeat(sym, m)
					s := tok.NewScanner(t)
					err := beg.Read(s)
					if err != nil || int(s.Mark()) != n*len(sym) {
						w.Fail("first reader: %v at %d", err, s.Mark())
					}
					s.Move(1)
					k := int(s.Mark())
					err = end.Read(s)
					w.trans += 2
					want := k
					if m >= n {
						want = k + n*len(sym)
					}
					if (err == nil) != (m >= n) || int(s.Mark()) != want {
						w.Fail("second reader on %d: %v at %d", m, err, s.Mark())
					}
				}
			}
		})
	})
	overList(c, "specials", "first reader matched a text of up to 4 special characters (line breaks, spaces, quotes, combining characters, ...), second reader on all texts of up to 2 and on variants of the match", specialTexts, 4, func(w *W, m string) {
		w.Case(func() string { return fmt.Sprintf("matched %q", m) }, func() {
			beg, end := tok.Janus("x", tok.To("|"))
			s := tok.NewScanner(m + "|")
			if err := beg.Read(s); err != nil || int(s.Mark()) != len(m) {
				w.Fail("first reader: %v at %d", err, s.Mark())
				return
			}
			try := func(t string, p int) {
				s := at(w, t, p)
				err := end.Read(s)
				w.trans++
				want, pos := strings.HasPrefix(t[p:], m), p
				if want {
					pos += len(m)
				}
				if (err == nil) != want || int(s.Mark()) != pos {
					w.Fail("second reader on %q at %d: %v at %d", t, p, err, s.Mark())
				}
			}
			for _, t := range specialTexts[:1+len(specials)+len(specials)*len(specials)] {
				try(t, 0)
				try(m+t, 0)
				try(t+m, len(t))
			}
			for _, t := range []string{strings.TrimSpace(m), strings.ToLower(m), strings.ToUpper(m), strings.ReplaceAll(m, "\r\n", "\n"), strings.ReplaceAll(m, "\n", "\r\n"), " " + m, strings.ReplaceAll(m, "\u0301", ""), m + m} {
				try(t, 0)
			}
		})
	})
	allRunes(c, "all-code-points", func(w *W, r rune) {
		v := string(r)
		w.Case(func() string { return fmt.Sprintf("rune %q", v) }, func() {
			beg, end := tok.Janus("x", tok.Between(0, utf8.MaxRune))
			s := tok.NewScanner(v + "|")
			if err := beg.Read(s); err != nil || int(s.Mark()) != len(v) {
				w.Fail("first reader: %v at %d", err, s.Mark())
			}
			others := append(orbit(r), r, r^1, r^0x100, r+1, 'a', '\n')
			for _, o := range others {
				for _, t := range []string{string(o), string(o) + "a", "a" + string(o)} {
					s := tok.NewScanner(t)
					err := end.Read(s)
					w.trans++
					want := strings.HasPrefix(t, v)
					if (err == nil) != want || want && int(s.Mark()) != len(v) || !want && s.Mark() != 0 {
						w.Fail("second reader on %q: %v at %d", t, err, s.Mark())
					}
				}
			}
		})
	})
}

// janusHistories: every sequence of attempts at the readers of two pairs, the
// pairs may have the same name and the same sub reader.
func janusHistories(c *Ctx) {
	type cfg struct {
		name  string
		mk    func() (r [4]tok.Reader)
		match [2]func(t string, p int) int // end of the match of the first reader or -1
	}
	runA := func(t string, p int) int {
		for p < len(t) && t[p] == 'a' {
			p++
		}
		return p
	}
	one := func(t string, p int) int {
		if p < len(t) && (t[p] == 'a' || t[p] == 'b') {
			return p + 1
		}
		return -1
	}
	many := func(t string, p int) int {
		if q := runA(t, p); q > p {
			return q
		}
		return -1
	}
	cfgs := []cfg{
		{"same name", func() (r [4]tok.Reader) {
			r[0], r[1] = tok.Janus("n", tok.Zom('a'))
			r[2], r[3] = tok.Janus("n", tok.AnyRune("ab"))
			return
		}, [2]func(string, int) int{runA, one}},
		{"shared sub reader", func() (r [4]tok.Reader) {
			sub := tok.Many('a')
			r[0], r[1] = tok.Janus("", sub)
			r[2], r[3] = tok.Janus("", sub)
			return
		}, [2]func(string, int) int{many, many}},
		{"nested", func() (r [4]tok.Reader) {
			r[0], r[1] = tok.Janus("x", tok.Many('a'))
			r[2], r[3] = tok.Janus("y", tok.Any("ab", tok.Many('b')))
			return
		}, [2]func(string, int) int{many, func(t string, p int) int {
			if has(t, p, "ab") {
				return p + 2
			}
			q := p
			for q < len(t) && t[q] == 'b' {
				q++
			}
			if q > p {
				return q
			}
			return -1
		}}},
	}
	ts := []string{"aabab", "baaab"}
	depth := c.quickOr(4, 5)
	nops := 4 * 6
	units := len(cfgs) * len(ts) * nops
	c.Phase("histories", fmt.Sprintf("all sequences of %d attempts (4 readers, 6 positions) with two pairs, 3 configurations, 2 texts", depth), units, func(w *W, u int) {
		cf := cfgs[u/nops/len(ts)]
		t := ts[u/nops%len(ts)]
		hist := make([]int, depth)
		hist[0] = u % nops
		w.Case(func() string { return fmt.Sprintf("%s %q beginning with %d", cf.name, t, u%nops) }, func() {
			var walk func(i int)
			walk = func(i int) {
				if w.failed {
					return
				}
				if i < depth {
					for o := 0; o < nops; o++ {
						hist[i] = o
						walk(i + 1)
					}
					return
				}
				r := cf.mk()
				exp := [2]string{}
				s := tok.NewScanner(t)
				w.states++
				for k, o := range hist {
					rd, p := o/6, o%6
					s.ToMarker(tok.Marker(p))
					err := r[rd].Read(s)
					q, ok := p, true
					if rd%2 == 0 {
						if e := cf.match[rd/2](t, p); e >= 0 {
							q = e
							exp[rd/2] = t[p:e]
						} else {
							ok = false
						}
					} else if ok = has(t, p, exp[rd/2]); ok {
						q = p + len(exp[rd/2])
					}
					w.trans++
					if (err == nil) != ok || int(s.Mark()) != q {
						w.Fail("history %v (reader*6+position), step %d: error %v at %d, expected ok=%v at %d", hist, k, err, s.Mark(), ok, q)
						return
					}
				}
			}
			walk(1)
		})
	})
}

// ---------------------------------------------------------------------- C14

func number(e *ex, wrap func(name string, n *ex) *ex) *ex {
	i := 0
	return decorate(e, func(n *ex) *ex {
		i++
		return wrap(fmt.Sprintf("n%d", i), n)
	})
}

// only wraps the node with the number k.
func only(e *ex, k int, wrap func(name string, n *ex) *ex) *ex {
	i := 0
	return decorate(e, func(n *ex) *ex {
		i++
		if i == k {
			return wrap(fmt.Sprintf("n%d", i), n)
		}
		return n
	})
}

func isJanusNode(e *ex) bool { return e.k == kJBeg || e.k == kJEnd }

type judgePicks struct {
	variants []*ex
	readers  []tok.Reader
	baskets  []*tok.Basket
	max      int
}

func (j *judgePicks) begin(w *W, e *ex) {
	j.variants = []*ex{number(e, ePick)}
	if e.size > 1 && e.size <= 9 {
		for k := 1; k <= e.size; k++ {
			j.variants = append(j.variants, only(e, k, ePick))
		}
		// picked rules instead of picked readers
		j.variants = append(j.variants, number(e, func(name string, n *ex) *ex {
			return mk(ex{k: kRule, str: name, n: 1, sub: []*ex{n}})
		}))
	}
	j.readers, j.baskets = nil, nil
	for _, v := range j.variants {
		bk := &tok.Basket{}
		j.baskets = append(j.baskets, bk)
		j.readers = append(j.readers, (&builder{w: w, basket: bk}).build(v))
	}
}

func segsOf(list []tok.Segment) []seg {
	res := make([]seg, len(list))
	for i, s := range list {
		f, t := ends(s.Token)
		res[i] = seg{s.Info, f, t}
	}
	return res
}

// keptPicks are the lists that a basket returned, with what was in them.
type keptPicks struct {
	lists [][]tok.Segment
	segs  [][]seg
}

func (k *keptPicks) keep(b *tok.Basket) {
	if b != nil {
		list := b.Picked()
		k.lists = append(k.lists, list)
		k.segs = append(k.segs, segsOf(list))
	}
}

func (k *keptPicks) same() bool {
	for i, l := range k.lists {
		if !sameSegs(segsOf(l), k.segs[i]) {
			return false
		}
	}
	return true
}

// ends of a token, from the public methods.
func ends(t tok.Token) (int, int) {
	var a, b int
	n := 0
	str := t.String()
	i := 1
	for ; i < len(str) && str[i] != '-'; i++ {
		a = a*10 + int(str[i]-'0')
	}
	for i++; i < len(str) && str[i] != ')'; i++ {
		b = b*10 + int(str[i]-'0')
		n++
	}
	return a, b
}

func sameSegs(a, b []seg) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func nonEmpty(a []seg) []seg {
	res := []seg{}
	for _, s := range a {
		if s.to > s.from {
			res = append(res, s)
		}
	}
	return res
}

func comparePicks(w *W, got []seg, in *interp, what func() string) bool {
	if in.amb {
		if !sameSegs(nonEmpty(got), nonEmpty(in.spec)) {
			w.Fail("%s: basket %v, expected (empty ones not compared) %v", what(), got, in.spec)
			return false
		}
		return true
	}
	if sameSegs(got, in.spec) {
		return true
	}
	if sameSegs(got, in.sim) {
		w.KnownF("empty-pick-backtrack", func() string { return fmt.Sprintf("%s: basket %v, successful path %v", what(), got, in.spec) })
		return true
	}
	w.Fail("%s: basket %v, expected %v", what(), got, in.spec)
	return false
}

func (j *judgePicks) text(w *W, t string, p int) {
	w.note = t
	for i, v := range j.variants {
		bk := j.baskets[i]
		clearBasket(bk) // the basket was filled by another text
		if len(bk.Picked()) != 0 {
			w.Fail("a basket that was set back is not empty: %v", bk)
			return
		}
		s := at(w, t, p)
		s.Tracker = bk
		in := interp{t: t}
		pos := p
		// reads one after another on the same scanner
		for k := 0; k < 3; k++ {
			w.trans++
			in.steps = 0
			want := in.eval(v, pos, len(t))
			err := j.readers[i].Read(s)
			if (err == nil) != want.ok {
				return // C09
			}
			if !comparePicks(w, segsOf(bk.Picked()), &in, func() string { return fmt.Sprintf("%s, read %d at %d", v, k+1, pos) }) {
				return
			}
			if in.amb || len(in.sim) != len(in.spec) {
				break
			}
			if k == 0 {
				str := []string{}
				for _, g := range in.spec {
					str = append(str, fmt.Sprintf("%s[%d-%d)", g.info, g.from, g.to))
				}
				if strings.Join(str, ";") != bk.String() {
					w.Fail("String of the basket is %q, expected %v", bk, str)
				}
			}
			if !want.ok || want.pos == pos {
				break
			}
			pos = want.pos
		}
	}
}

func (j *judgePicks) end(w *W) {}

func pickSpaces(c *Ctx) []space {
	res := []space{}
	for _, s := range exprSpaces(c) {
		if s.n > 60000 && !c.thorough {
			s.texts = []string{"", "a", "b", "ab", "ba", "aab", "abab", "äab"}
		} else if len(s.texts) > 60 && s.n > 2000 {
			s.texts = textsShort
		}
		res = append(res, s)
	}
	return res
}

func checkC14(c *Ctx) {
	ruleWraps(c, "C14")
	explore(c, pickSpaces(c), func() judge { return &judgePicks{} })
	// the direct interface of the basket
	depth := c.quickOr(5, 6)
	nops := 5 + 6 // add one of 6 segments, update to 0..4
	c.Phase("basket", fmt.Sprintf("all sequences of up to %d calls of Add and Update", depth), nops*nops, func(w *W, u int) {
		hist := []int{u / nops, u % nops}
		w.Case(func() string { return fmt.Sprintf("calls beginning with %v", hist) }, func() {
			segs := []tok.Segment{}
			for _, x := range [][2]int{{0, 1}, {1, 2}, {0, 3}, {2, 2}, {1, 4}, {3, 4}} {
				segs = append(segs, tok.Segment{Info: "s", Token: tok.MakeToken(tok.Marker(x[0]), tok.Marker(x[1]))})
			}
			var walk func(h []int)
			walk = func(h []int) {
				bk := &tok.Basket{}
				model := []seg{}
				pos := 0
				kept := keptPicks{}
				for _, o := range h {
					w.trans++
					kept.keep(bk)
					if o < 6 {
						f, t := ends(segs[o].Token)
						if t < pos { // a reader completes a pick at the position
							return
						}
						bk.Update(tok.Marker(t))
						bk.Add(segs[o])
						model = append(model, seg{"s", f, t})
						pos = t
					} else {
						pos = o - 6
						bk.Update(tok.Marker(pos))
						for len(model) > 0 && model[len(model)-1].to > pos {
							model = model[:len(model)-1]
						}
					}
				}
				w.states++
				if got := segsOf(bk.Picked()); !sameSegs(got, model) {
					w.Fail("history %v: %v, expected %v", h, got, model)
					return
				}
				if !kept.same() {
					w.Fail("history %v: a list that was returned before is changed", h)
					return
				}
				if len(h) < depth {
					for o := 0; o < nops; o++ {
						walk(append(h[:len(h):len(h)], o))
					}
				}
			}
			walk(hist)
		})
	})
	basketHistories(c)
	// grammars: all rules picked, against map calls on the successful path
	grammarTextsLess(c, "", 1, func(w *W, g *gram, r inst, t string) { grammarPicks(w, g, t) })
	manyPicks(c)
}

type pickGrammar struct {
	X tok.Rule `name:"x"`
	Y tok.Rule `name:"y"`
}

func (g *pickGrammar) Read(s *tok.Scanner) error { return g.Y.Read(s) }
func (g *pickGrammar) What() string              { return "g" }
func (g *pickGrammar) Grammar() []*tok.Rule      { return []*tok.Rule{&g.X, &g.Y} }

// basketHistories: baskets are made, coupled and filled one after another on one scanner.
func basketHistories(c *Ctx) {
	names := []string{"NewBasket", "NewBasketFor", "PickWith(x)", "read x", "read y", "fail", "ToStart", "no tracker", "back by one"}
	k := len(names)
	depth := c.quickOr(5, 6)
	c.Phase("baskets", fmt.Sprintf("all sequences of up to %d of: new basket, new basket for a grammar, pick one more rule, reads, failed read, back to the start, back by one, no basket; also the lists returned before", depth), k*k, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("calls beginning with %s, %s", names[u/k], names[u%k]) }, func() {
			var walk func(h []int)
			walk = func(h []int) {
				if w.failed {
					return
				}
				w.states++
				s := tok.NewScanner("aaaaaaaaaaaaaaaaaaaaaaaa")
				g := &pickGrammar{}
				tok.MustSetRuleNames(g)
				g.X.Reader = tok.Lit("a")
				g.Y.Reader = tok.Seq(&g.X, &g.X)
				var cur *tok.Basket
				x, y := 0, 0 // how often the rules pick to the current basket
				want := []seg{}
				readX := func(p int) {
					for i := 0; i < x; i++ {
						want = append(want, seg{"x", p, p + 1})
					}
				}
				kept := keptPicks{}
				for _, o := range h {
					w.trans++
					p := int(s.Mark())
					kept.keep(cur)
					switch o {
					case 0, 1:
						x, y = o, o
						want = want[:0]
						if o == 0 {
							cur = s.NewBasket()
						} else {
							cur = s.NewBasketFor(g)
						}
					case 2:
						if cur != nil {
							cur.PickWith(&g.X)
							x++
						}
					case 3:
						readX(p)
						g.X.Read(s)
					case 4:
						readX(p)
						readX(p + 1)
						for i := 0; i < y; i++ {
							want = append(want, seg{"y", p, p + 2})
						}
						s.Use(g)
					case 5:
						s.Use(tok.Seq(&g.X, g, 'z'))
					case 6:
						s.ToStart()
						want = want[:0]
					case 7:
						s.Tracker, cur = nil, nil
						x, y = 0, 0
						want = want[:0]
					case 8:
						if s.Move(-1) {
							for len(want) > 0 && want[len(want)-1].to > p-1 {
								want = want[:len(want)-1]
							}
						}
					}
				}
				if !kept.same() {
					l := []string{}
					for _, o := range h {
						l = append(l, names[o])
					}
					w.Fail("%s: a list that was returned before is changed", strings.Join(l, ", "))
					return
				}
				if cur != nil {
					if got := segsOf(cur.Picked()); !sameSegs(got, want) {
						l := []string{}
						for _, o := range h {
							l = append(l, names[o])
						}
						w.Fail("%s: picked %v, expected %v", strings.Join(l, ", "), got, want)
						return
					}
				}
				if len(h) < depth {
					for o := 0; o < k; o++ {
						walk(append(h[:len(h):len(h)], o))
					}
				}
			}
			walk([]int{u / k, u % k})
		})
	})
}

// grammarPicks: the picks of a grammar are the successes of its rules that
// were not given up. A rule success is given up if the position moves back
// before its end; successes are observed with Map.
func grammarPicks(w *W, g *gram, t string) {
	a, b := g.fresh(), g.fresh()
	s := tok.NewScanner(t)
	bk := s.NewBasketFor(a.g)
	err := a.g.Read(s)
	m := s.Mark()
	tr := &undoTracker{}
	for _, r := range b.g.Grammar() {
		name := r.Name
		r.Map(func(tk tok.Token) {
			f, e := ends(tk)
			tr.segs = append(tr.segs, seg{name, f, e})
		})
	}
	s2 := tok.NewScanner(t)
	s2.Tracker = tr
	err2 := b.g.Read(s2)
	w.trans += 2
	if (err == nil) != (err2 == nil) || m != s2.Mark() {
		w.Fail("picking changes the read: %v at %d, without %v at %d", err, m, err2, s2.Mark())
		return
	}
	if got := segsOf(bk.Picked()); !sameSegs(got, tr.segs) {
		w.Fail("picked %v, successes of the rules %v", got, tr.segs)
	}
	if err != nil && len(nonEmpty(segsOf(bk.Picked()))) > 0 {
		w.Fail("picked %v by a failed read", bk.Picked())
	}
	for _, x := range bk.Picked() {
		if f, e := ends(x.Token); f < 0 || e > int(m) || f > e {
			w.Fail("picked %v outside of the text read up to %d", x, m)
		}
	}
}

type undoTracker struct{ segs []seg }

func (u *undoTracker) Update(m tok.Marker) {
	for len(u.segs) > 0 && u.segs[len(u.segs)-1].to > int(m) {
		u.segs = u.segs[:len(u.segs)-1]
	}
}

// ---------------------------------------------------------------------- C15

type judgeWrapped struct {
	e        *ex
	plain    tok.Reader
	variants []*ex
	readers  []tok.Reader
	builders []*builder
	full     *wrapEvents
}

// wrapEvents: Monitor(Map(Probe(x))) at every node.
type wrapEvents struct {
	r       tok.Reader
	e       *ex
	log     *tok.Log
	want    []tok.LogEntry
	open    []int
	expect  string // map call that has to follow
	problem string
	maps    int
}

func (we *wrapEvents) build(w *W, e *ex) {
	we.e = number(e, func(name string, n *ex) *ex {
		p := eProbe(n)
		p.str = name
		return eMonitor(name, eMap(name, p))
	})
	we.log = &tok.Log{}
	b := &builder{w: w, log: we.log}
	bad := func(f string, a ...interface{}) {
		if we.problem == "" {
			we.problem = fmt.Sprintf(f, a...)
		}
	}
	b.onEnter = func(n *ex, from int) {
		if we.expect != "" {
			bad("no map call for %s", we.expect)
			we.expect = ""
		}
		we.want = append(we.want, tok.LogEntry{EnterAt: from, Info: n.str, Level: len(we.open) + 1})
		we.open = append(we.open, len(we.want)-1)
	}
	b.onProbe = func(n *ex, from, to int, err error) {
		if we.expect != "" {
			bad("no map call for %s", we.expect)
			we.expect = ""
		}
		i := we.open[len(we.open)-1]
		we.open = we.open[:len(we.open)-1]
		we.want[i].ExitAt = to
		we.want[i].Error = err
		if err == nil {
			we.expect = fmt.Sprintf("%s[%d-%d)", n.str, from, to)
		}
	}
	b.onMap = func(name string, t tok.Token) {
		we.maps++
		if got := name + t.String(); got != we.expect {
			bad("map call %s, expected %q", got, we.expect)
		}
		we.expect = ""
	}
	we.r = b.build(we.e)
}

func (we *wrapEvents) check(w *W, t string, p int, keep bool) {
	if !keep {
		we.log.Reset()
		if len(we.log.Entries) != 0 {
			w.Fail("entries after Reset: %v", we.log.Entries)
			return
		}
		we.want = we.want[:0]
	}
	we.open, we.expect, we.problem = we.open[:0], "", ""
	s := at(w, t, p)
	we.r.Read(s)
	w.trans++
	if we.problem == "" && we.expect != "" {
		we.problem = "no map call for " + we.expect
	}
	if we.problem != "" {
		w.Fail("at %d: %s", p, we.problem)
		return
	}
	if len(we.log.Entries) != len(we.want) {
		w.Fail("at %d: %d log entries, expected %d", p, len(we.log.Entries), len(we.want))
		return
	}
	for i, x := range we.log.Entries {
		if x != we.want[i] {
			w.Fail("at %d: log entry %d is %+v, expected %+v", p, i, x, we.want[i])
			return
		}
	}
}

func (j *judgeWrapped) begin(w *W, e *ex) {
	j.e = e
	j.plain = (&builder{w: w}).build(e)
	j.variants = nil
	wraps := []func(name string, n *ex) *ex{
		func(name string, n *ex) *ex { return eMonitor(name, n) },
		func(name string, n *ex) *ex { return eMap(name, n) },
		func(name string, n *ex) *ex { return ePick(name, n) },
		func(name string, n *ex) *ex { return eNamed(name, n) },
		func(name string, n *ex) *ex { return mk(ex{k: kRule, str: name, n: 7, sub: []*ex{n}}) },
		func(name string, n *ex) *ex { return ePick(name, eMonitor(name, eMap(name, n))) },
		func(name string, n *ex) *ex { return eMap(name, ePick(name, eNamed(name, eMonitor(name, n)))) },
	}
	for i, f := range wraps {
		j.variants = append(j.variants, number(e, f))
		if e.size > 1 && e.size <= 5 && i < 3 {
			for k := 1; k <= e.size; k++ {
				j.variants = append(j.variants, only(e, k, f))
			}
		}
	}
	j.readers, j.builders = nil, nil
	for _, v := range j.variants {
		b := &builder{w: w, basket: &tok.Basket{}, log: &tok.Log{}}
		j.builders = append(j.builders, b)
		j.readers = append(j.readers, b.build(v))
	}
	j.full = &wrapEvents{}
	j.full.build(w, e)
}

func errPos(err error) int {
	if re, ok := err.(tok.ReadError); ok {
		return int(re.Marker)
	}
	if err != nil {
		return -1
	}
	return -2
}

func (j *judgeWrapped) text(w *W, t string, p int) {
	w.note = t
	s := at(w, t, p)
	err := j.plain.Read(s)
	m, ep := s.Mark(), errPos(err)
	for i, r := range j.readers {
		s := at(w, t, p)
		b := j.builders[i]
		s.Tracker = b.basket
		b.log.Reset()
		err2 := r.Read(s)
		w.trans++
		if (err == nil) != (err2 == nil) || m != s.Mark() || ep != errPos(err2) {
			w.Fail("at %d: plain %v at %d, wrapped %s: %v at %d", p, err, m, j.variants[i], err2, s.Mark())
			return
		}
	}
	j.full.check(w, t, p, false)
	if !w.failed {
		j.full.check(w, t, p, true) // a log goes on with the next read
	}
}

func (j *judgeWrapped) end(w *W) {}

func checkC15(c *Ctx) {
	ruleWraps(c, "C15")
	wrapLayers(c)
	sp := []space{}
	for _, s := range exprSpaces(c) {
		if s.n > 60000 && !c.thorough {
			continue
		}
		if s.n > 2000 {
			s.texts = []string{"", "a", "b", "ab", "ba", "aab", "bab", "äab", "a\xff"}
		} else if s.every || s.n > 500 {
			s.texts = uniq(append(append([]string{}, s.texts...), "aab"))
			if len(s.texts) > 60 {
				s.texts = append(append([]string{}, s.texts[:40]...), textsShort...)
			}
		}
		if strings.HasPrefix(s.name, "sizes-") {
			if s.name > "sizes-3" || s.name < "sizes-2" {
				continue
			}
			s.texts = []string{s.texts[0], s.texts[1], s.texts[3]}
		}
		if s.name == "sizes" {
			s.texts = []string{"", strings.Repeat("a", 200) + "b", strings.Repeat("a", 64) + "b", strings.Repeat("a", 17), strings.Repeat("ab", 70), "x3"}
		}
		sp = append(sp, s)
	}
	explore(c, sp, func() judge { return &judgeWrapped{} })
	grammarTextsLess(c, "", 1, func(w *W, g *gram, r inst, t string) {
		grammarWrapped(w, g, r, t)
	})
	logPrint(c)
	strangePrint(c)
	deepLog(c)
	manyEntries(c)
	logHistories(c)
}

// logHistories: all sequences of operations on one log. Entries that are open
// at a Reset are never exited.
func logHistories(c *Ctx) {
	const letters = "EXFRMNSIT"
	depth := c.quickOr(6, 8)
	firsts := textsExact(strings.Split(letters, ""), 3)
	c.Phase("log-histories", fmt.Sprintf("all sequences of up to %d operations on a log: enter, exit of the last open entry with and without error, Reset, reads of nested monitored readers that succeed and fail, reads during which the log is reset, with and without later entries", depth), len(firsts), func(w *W, u int) {
		var walk func(h string)
		walk = func(h string) {
			w.Case(func() string { return h }, func() { logHistory(w, h) })
			if len(h) < depth {
				for _, l := range letters {
					walk(h + string(l))
				}
			}
		}
		for n := 1; n < 3; n++ {
			if strings.HasPrefix(firsts[u][n:], "EEE"[n:]) {
				h := firsts[u][:n]
				w.Case(func() string { return h }, func() { logHistory(w, h) })
			}
		}
		walk(firsts[u])
	})
}

func logHistory(w *W, h string) {
	log := &tok.Log{}
	in := tok.Monitor(tok.Lit("b"), log, "in")
	out := tok.Monitor(tok.Seq('a', in), log, "out")
	type entry struct {
		enter, level, exit int
		info               string
		failed, closed     bool
		late               bool // the level is not judged
	}
	var want []entry
	var open []int
	var handles []*tok.LogEntry
	failure := fmt.Errorf("failure")
	for i, l := range h {
		w.trans++
		switch l {
		case 'E':
			handles = append(handles, log.Enter(fmt.Sprint("e", i), i))
			want = append(want, entry{enter: i, info: fmt.Sprint("e", i), level: len(open) + 1})
			open = append(open, len(want)-1)
		case 'X', 'F':
			if len(open) == 0 {
				return
			}
			n := open[len(open)-1]
			var err error
			if l == 'F' {
				err = failure
			}
			log.Exit(handles[len(open)-1], i+100, err)
			// the entry of Enter is the one in the log only until the next one
			if n == len(want)-1 {
				want[n].closed, want[n].exit, want[n].failed = true, i+100, l == 'F'
			}
			open, handles = open[:len(open)-1], handles[:len(open)-1]
		case 'R':
			log.Reset()
			want, open, handles = nil, nil, nil
		case 'M', 'N':
			s := tok.NewScanner("xab")
			if l == 'N' {
				s = tok.NewScanner("xac")
			}
			s.Move(1)
			err := s.Use(out)
			if (err != nil) != (l == 'N') {
				w.Fail("read after %q: %v", h[:i], err)
				return
			}
			x, y := 3, 3
			if l == 'N' {
				x, y = 1, 2
			}
			want = append(want, entry{enter: 1, info: "out", level: len(open) + 1, closed: true, exit: x, failed: l == 'N'})
			want = append(want, entry{enter: 2, info: "in", level: len(open) + 2, closed: true, exit: y, failed: l == 'N'})
		}
		if l == 'S' || l == 'I' || l == 'T' {
			// a Reset during a read changes neither the read nor the entries
			// that are made after it; those that were open are gone
			var r tok.Reader = tok.Map(tok.Lit("b"), func(tok.Token) { log.Reset() })
			t := "ab"
			if l != 'S' {
				r = tok.Monitor(r, log, "in")
			}
			want, open, handles = nil, nil, nil
			if l == 'T' {
				t = "abcd"
				r = tok.Seq(r, tok.Opt(tok.Monitor(tok.Lit("x"), log, "no")), tok.Monitor(tok.Lit("c"), log, "late"), 'd')
				want = append(want, entry{enter: 2, info: "no", late: true, closed: true, exit: 2, failed: true})
				want = append(want, entry{enter: 2, info: "late", late: true, closed: true, exit: 3})
			}
			s := tok.NewScanner(t)
			if err := s.Use(tok.Monitor(tok.Seq('a', r), log, "out")); err != nil || !s.AtEnd() {
				w.Fail("read with Reset after %q: %v at %d", h[:i], err, s.Mark())
				return
			}
		}
		if len(log.Entries) != len(want) {
			w.Fail("%d entries after %q, expected %d", len(log.Entries), h[:i+1], len(want))
			return
		}
		for k, e := range log.Entries {
			x := want[k]
			if e.EnterAt != x.enter || e.Info != x.info || e.Level != x.level && !x.late || x.closed && (e.ExitAt != x.exit || (e.Error != nil) != x.failed) {
				w.Fail("entry %d after %q is %+v, expected %+v", k, h[:i+1], e, x)
				return
			}
		}
	}
}

// grammarWrapped: the rules of a grammar monitored and mapped.
func grammarWrapped(w *W, g *gram, r inst, t string) {
	s := tok.NewScanner(t)
	err := g.fresh().g.Read(s)
	m := s.Mark()
	for v := 0; v < 3; v++ {
		x := g.fresh()
		calls := []seg{}
		var log *tok.Log
		rules := x.g.Grammar()
		mapAll := func() {
			for _, r := range rules {
				name := r.Name
				r.Map(func(tk tok.Token) {
					f, e := ends(tk)
					calls = append(calls, seg{name, f, e})
				})
			}
		}
		s := tok.NewScanner(t)
		switch v {
		case 0:
			log = tok.MonitorGrammar(x.g)
			mapAll()
		case 1:
			mapAll()
			log = &tok.Log{}
			log.Monitor(rules...)
			s.NewBasketFor(x.g)
		case 2:
			s.NewBasketFor(x.g)
			for _, r := range rules {
				if r.What() != r.Name {
					w.Fail("rule %s is described as %s", r.Name, r.What())
				}
			}
		}
		err2 := x.g.Read(s)
		w.trans++
		if fmt.Sprint(err) != fmt.Sprint(err2) || m != s.Mark() {
			w.Fail("plain %v at %d, wrapped %v at %d", err, m, err2, s.Mark())
			return
		}
		if log == nil {
			continue
		}
		// entries nest, and the successful ones are the map calls in the order of their end
		open := []int{}
		order := []int{}
		for i, e := range log.Entries {
			if e.Level < 1 || e.Level > len(open)+1 {
				w.Fail("entry %d %v on level %d in %d open ones", i, e, e.Level, len(open))
				return
			}
			for len(open) >= e.Level {
				order = append(order, open[len(open)-1])
				open = open[:len(open)-1]
			}
			open = append(open, i)
		}
		for len(open) > 0 {
			order = append(order, open[len(open)-1])
			open = open[:len(open)-1]
		}
		k := 0
		for _, i := range order {
			e := log.Entries[i]
			if e.Error != nil {
				if e.ExitAt != e.EnterAt {
					w.Fail("failed entry %+v", e)
				}
				continue
			}
			if k >= len(calls) || calls[k] != (seg{e.Info, e.EnterAt, e.ExitAt}) {
				w.Fail("entry %+v, map call %v", e, append(calls, seg{"none", 0, 0})[k])
				return
			}
			k++
		}
		if k != len(calls) {
			w.Fail("%d map calls, %d successful entries", len(calls), k)
		}
	}
}

// logPrint: Print and PrintWithPreview write one line per entry.
func logPrint(c *Ctx) {
	list := []string{"", "a", "ab", "äb", "a\nb", "\xffa", "aaaaaaaaab", "€€€€", "a\"b"}
	c.phaseN("print", "logs of up to 6 entries on 9 texts, preview of 0..4 and 20 runes", len(list), 1, func(w *W, u int) {
		t := list[u]
		for k := 0; k <= 6; k++ {
			for _, n := range []int{0, 1, 2, 3, 4, 20} {
				k, n := k, n
				w.Case(func() string { return fmt.Sprintf("%d reads on %q, preview %d", k, t, n) }, func() {
					log := &tok.Log{}
					r := tok.Monitor(tok.Seq(tok.Monitor(tok.Opt('a'), log, "in ner"), tok.Not(tok.Lit("zz"))), log, "outer")
					s := tok.NewScanner(t)
					for i := 0; i < k; i++ {
						r.Read(s)
					}
					plain := capture(func() { log.Print() })
					pre := capture(func() { log.PrintWithPreview(t, n) })
					w.trans += 2
					if len(plain) != len(log.Entries) || len(pre) != len(log.Entries) {
						w.Fail("%d entries, %d lines, %d lines with preview", len(log.Entries), len(plain), len(pre))
						return
					}
					for i, e := range log.Entries {
						if plain[i] != e.String() || !strings.HasPrefix(pre[i], plain[i]) {
							w.Fail("entry %v printed as %q and %q", e, plain[i], pre[i])
						}
						want := fmt.Sprint(e.Level) + strings.Repeat(".", e.Level) + "@ " + fmt.Sprint(e.EnterAt) + " " + e.Info
						if e.String() != want {
							w.Fail("entry %+v is %q", e, e.String())
						}
						rs := runes(t[e.EnterAt:])
						if len(rs) > n {
							rs = rs[:n]
						}
						if q := fmt.Sprintf("%s > %q", want, strings.Join(rs, "")); pre[i] != q {
							w.Fail("entry %v with preview %q, expected %s", e, pre[i], q)
						}
					}
				})
			}
		}
	})
}

// deepLog: a log of 1..60 nested entries, and of as many in a row.
func deepLog(c *Ctx) {
	c.phaseN("print-deep", "logs of 1..60 nested entries and of 1..60 entries in a row", 60, 1, func(w *W, u int) {
		n := u + 1
		w.Case(func() string { return fmt.Sprintf("%d entries", n) }, func() {
			t := strings.Repeat("a", n)
			log := &tok.Log{}
			r := tok.Lit("a")
			for i := 0; i < n; i++ {
				r = tok.Monitor(tok.Seq('a', tok.Opt(r)), log, fmt.Sprint("r", n-i))
			}
			r.Read(tok.NewScanner(t))
			want := []string{}
			for i := 1; i <= n; i++ {
				want = append(want, fmt.Sprintf("%d%s@ %d r%d", i, strings.Repeat(".", i), i-1, i))
			}
			flat := tok.Monitor(tok.Lit("a"), log, "flat")
			s := tok.NewScanner(t)
			for i := 0; i < n; i++ {
				flat.Read(s)
				want = append(want, fmt.Sprintf("1.@ %d flat", i))
			}
			plain := capture(func() { log.Print() })
			w.trans++
			if a, b := strings.Join(plain, "\n"), strings.Join(want, "\n"); a != b {
				w.Fail("printed\n%s\nexpected\n%s", a, b)
				return
			}
			for i, e := range log.Entries {
				exit := n
				if i >= n {
					exit = i - n + 1
				}
				if e.ExitAt != exit || e.Error != nil {
					w.Fail("entry %d is %+v, expected the exit at %d", i, e, exit)
					return
				}
			}
		})
	})
}

func capture(f func()) []string {
	old := os.Stdout
	r, wr, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	done := make(chan []string)
	go func() {
		res := []string{}
		sc := bufio.NewScanner(io.Reader(r))
		for sc.Scan() {
			res = append(res, sc.Text())
		}
		done <- res
	}()
	os.Stdout = wr
	func() {
		defer func() { os.Stdout = old; wr.Close() }()
		f()
	}()
	res := <-done
	r.Close()
	return res
}
