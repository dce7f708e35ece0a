package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func init() {
	register("C28", "one instance reads a sequence that contains every pair (and triple) of texts one after another; every read compared with the read of a fresh instance: result, position, error, picked segments, values", checkC28)
	register("C29", "all schedules with up to two preemptions of two and three parses that hand over control at every movement of their scanners and at every callback, each outcome compared with the parse alone; all pairs of operations without synchronisation under the race detector: no conflicting access, hence all other interleavings are equivalent", checkC29,
		"the code between two movements, callbacks or calls is covered by the absence of conflicting accesses (race detector), not by enumeration")
}

// ---------------------------------------------------------------------- C28

// deBruijn returns a sequence over 0..k-1 that contains every word of length n.
func deBruijn(k, n int) []int {
	a := make([]int, k*n+1)
	seq := []int{}
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

// readOutcome: everything that a read shows.
func readOutcome(r tok.Reader, t string) string {
	s := tok.NewScanner(t)
	return outcomeOn(r, s)
}

func outcomeOn(r tok.Reader, s *tok.Scanner) string {
	err := r.Read(s)
	if err == nil {
		return fmt.Sprintf("ok %d", s.Mark())
	}
	kind := "error"
	if _, ok := err.(tok.ReadError); ok {
		kind = "read error"
	}
	return fmt.Sprintf("%s %q %d", kind, err.Error(), s.Mark())
}

type judgeReuse struct {
	e     *ex
	order []int
	texts []string
}

func (j *judgeReuse) begin(w *W, e *ex) {
	fresh := make([]string, len(j.texts))
	for i, t := range j.texts {
		w.trans++
		fresh[i] = readOutcome((&builder{w: w}).build(e), t)
	}
	r := (&builder{w: w}).build(e)
	what := r.What()
	for k, i := range j.order {
		w.trans++
		if got := readOutcome(r, j.texts[i]); got != fresh[i] {
			before := []string{}
			for b := k - 3; b < k; b++ {
				if b >= 0 {
					before = append(before, j.texts[j.order[b]])
				}
			}
			w.Fail("%q after %q: %s, with a fresh reader %s", j.texts[i], before, got, fresh[i])
			return
		}
	}
	if r.What() != what {
		w.Fail("the description was changed from %q to %q", what, r.What())
	}
}

func (j *judgeReuse) text(w *W, t string, p int) {}
func (j *judgeReuse) end(w *W)                   {}

func checkC28(c *Ctx) {
	few := []string{"", "a", "b", "ab", "ba", "aab", "ä", "abab", "a1", "\xff"}
	pairs := deBruijn(len(few), 2)
	triples := append(append([]int{}, pairs...), deBruijn(6, 3)...)
	var spaces []space
	for _, sp := range exprSpaces(c) {
		sp.texts, sp.every = nil, false
		if strings.HasPrefix(sp.name, "sizes") {
			continue
		}
		if !c.thorough && (sp.name == "ternary" || sp.name == "binary-2" || sp.name == "unary-binary-unary" || sp.name == "choice-of-sequences") {
			// every seventh expression of the large spaces has all operators and all leaves
			n, at := sp.n, sp.at
			step := 1
			sp.n = (n + step - 1) / step
			sp.at = func(i int) *ex { return at(i * step) }
			sp.bound += ", all"
		}
		spaces = append(spaces, sp)
	}
	explore(c, spaces, func() judge { return &judgeReuse{order: pairs, texts: few} })
	small := cat(richLeaves(), allUnary(baseLeaves()), allBinary(baseLeaves(), baseLeaves()))
	explore(c, []space{listSpace("triples", "all leaves and expressions of depth 1, all pairs of 10 and all triples of 6 texts", small, nil, false)}, func() judge { return &judgeReuse{order: triples, texts: few} })
	often := []int{}
	for len(often) < 4200 {
		often = append(often, pairs...)
	}
	explore(c, []space{listSpace("often", "all leaves and expressions of depth 1, 4200 texts one after the other", small, nil, false)}, func() judge { return &judgeReuse{order: often, texts: few} })
	// Janus pairs that begin before they end
	list := []*ex{}
	for _, s := range []*ex{eUn(kZom, eLit("a")), eAnyRune("ab"), eUn(kOpt, eLit("ab"))} {
		b, e := eJBeg("j", s), eJEnd("j")
		parts := []*ex{b, e, eLit("a"), eUn(kOpt, e), eUn(kAt, e), eUn(kNot, e), eUn(kTo, e), eUn(kPast, e), eUn(kZom, e), eUn(kMany, b), eSeq(e, eLit("b")), eAny(eSeq(b, eLit("x")), eLit("a")), eAny(eSeq(e, eLit("x")), eLit("b")), eBin(kBody, eUn(kZom, eLit("a")), e), eBin(kBodyTail, eUn(kZom, eUn(kNot, eLit("x"))), e)}
		for _, x := range parts {
			for _, y := range parts {
				q := eSeq(b, x, y)
				list = append(list, q, eUn(kZom, q), eUn(kTo, q), eUn(kPast, q), eAny(q, eLit("a")), eUn(kNot, q), eTimes(2, q), eSeq(eLit("a"), q))
			}
		}
	}
	jt := []string{"", "a", "b", "aa", "aba", "abab", "aabaa", "bb", "aabab", "ba"}
	explore(c, []space{listSpace("pairs", "Janus pairs that begin before they end, under 7 combinators", list, nil, false)}, func() judge {
		return &judgeReuse{order: append(append([]int{}, pairs...), deBruijn(6, 3)...), texts: jt}
	})
	reuseValues(c)
	reuseGrammars(c)
	reusePicks(c)
}

// reuseValues: the value readers hold the value of their last read.
func reuseValues(c *Ctx) {
	ts := []string{"0", "1", "-1", "127", "128", "255", "256", "-128", "x", "", "7f", "ff", "077", "+5", "true", "false", "True", "FALSE", "tru", "999999999999999999999", "12 34"}
	order := deBruijn(len(ts), 2)
	type vr struct {
		name string
		new  func() (tok.Reader, func() string)
	}
	list := []vr{}
	for _, base := range []int{8, 10, 16} {
		for _, bits := range []int{8, 16, 32, 64} {
			base, bits := base, bits
			list = append(list, vr{fmt.Sprintf("Int(%d,%d)", base, bits), func() (tok.Reader, func() string) {
				r := tok.Int(base, bits)
				return r, func() string { return fmt.Sprint(r.Value, r.Base, r.BitSize) }
			}}, vr{fmt.Sprintf("Uint(%d,%d)", base, bits), func() (tok.Reader, func() string) {
				r := tok.Uint(base, bits)
				return r, func() string { return fmt.Sprint(r.Value, r.Base, r.BitSize) }
			}})
		}
	}
	for _, f := range []string{"", "l", "U", "Cc", "*"} {
		f := f
		list = append(list, vr{"Bool(" + f + ")", func() (tok.Reader, func() string) {
			r := tok.Bool(f)
			return r, func() string { return fmt.Sprint(r.Value, r.Format) }
		}})
	}
	list = append(list, vr{"Seq(Int,' ',Int)", func() (tok.Reader, func() string) {
		a, b := tok.Int(10, 16), tok.Int(10, 8)
		return tok.Seq(a, ' ', b), func() string { return fmt.Sprint(a.Value, b.Value) }
	}}, vr{"Many(Seq(Int,Opt(' ')))", func() (tok.Reader, func() string) {
		a := tok.Int(10, 8)
		return tok.Seq(tok.At(a), tok.Times(1, a)), func() string { return fmt.Sprint(a.Value) }
	}})
	c.Phase("values", "29 value readers and two combinations, all pairs of 21 texts one after another", len(list), func(w *W, u int) {
		w.Case(func() string { return list[u].name }, func() {
			r, val := list[u].new()
			last := ""
			for _, i := range order {
				w.trans += 2
				f, fval := list[u].new()
				want := readOutcome(f, ts[i])
				got := readOutcome(r, ts[i])
				if got != want {
					w.Fail("%q after %q: %s, with a fresh reader %s", ts[i], last, got, want)
					return
				}
				if strings.HasPrefix(want, "ok") && val() != fval() {
					w.Fail("%q after %q: value %s, with a fresh reader %s", ts[i], last, val(), fval())
					return
				}
				last = ts[i]
			}
		})
	})
}

type gramTexts struct {
	name  string
	fresh func() tok.Grammar
	texts []string
	docs  []string
}

func reuseTexts() []gramTexts {
	return []gramTexts{
		{"json", func() tok.Grammar { return grammar.JSON() }, []string{"", "1", "-", `"a"`, `"a`, "[1,2]", "[1,", `{"a":{"b":[]}}`, `{"a":`, "nul", " true ", `"\u12`, "1.5e+3x", "[[[[", "\xff", `{"a":1,}`}, jsonDocs},
		{"mxt", func() tok.Grammar { return grammar.MXT() }, []string{"", "// a -->", "// a --> S", "// a -->\nx\n// b -->", "// a --> S\nx\n//S b -->\ny", "// a --> S\nx\n// b -->", "// a --> SS\n//S\n//SS b -->", "//S a -->\nx\n//y b -->", "// a", "// a --> T\r\n//S b -->\r\n//T c -->", "x", "// a -->\n//", "//", "// a --> \n// b --> S\n//S c --> S\n// d"}, mxtDocs},
		{"lua", func() tok.Grammar { return grammar.Lua() }, []string{"", "x=1", "x=[[a]]", "x=[==[a]]]==]", "x=[=[a]==]", "--[[c]]", "--[==[c]]x=1", "--[=[c]=]x=1", "f(", "local function f(a) return a end", "if x then", "x='a", "return 1", "x={[1]=2;a=3}", "--c\nx=2 y", "goto l ::l::"}, luaDocs},
	}
}

func reuseGrammars(c *Ctx) {
	for _, g := range reuseTexts() {
		g := g
		rules := len(g.fresh().Grammar())
		c.Phase("grammar-"+g.name, fmt.Sprintf("the grammar and each of its %d rules: all pairs of %d texts, all triples of 8 texts", rules, len(g.texts)), rules+1, func(w *W, u int) {
			w.Case(func() string { return fmt.Sprintf("%s rule %d", g.name, u) }, func() {
				get := func(x tok.Grammar) tok.Reader {
					if u == rules {
						return x
					}
					return x.Grammar()[u]
				}
				want := []string{}
				for _, t := range g.texts {
					want = append(want, readOutcome(get(g.fresh()), t))
				}
				r := get(g.fresh())
				order := append(deBruijn(len(g.texts), 2), deBruijn(8, 3)...)
				for k, i := range order {
					w.trans++
					if got := readOutcome(r, g.texts[i]); got != want[i] {
						before := []string{}
						for b := k - 3; b < k; b++ {
							if b >= 0 {
								before = append(before, g.texts[order[b]])
							}
						}
						w.Fail("%q after %q: %s, with a fresh grammar %s", g.texts[i], before, got, want[i])
						return
					}
				}
			})
		})
		// a text that ends or fails anywhere before a document
		cuts := []string{}
		for _, d := range g.docs {
			for i := 0; i <= len(d); i++ {
				cuts = append(cuts, d[:i], d[:i]+"\x01"+d[i:], d[i:])
			}
		}
		all := append(append([]string{}, g.docs...), g.texts...)
		oft := append([]string{}, g.texts...)
		for _, d := range g.docs {
			oft = append(oft, d, d[:len(d)/2])
		}
		oft = uniq(oft)
		overList(c, "often-"+g.name, fmt.Sprintf("each of %d texts read again and again with one instance (70000 times, longer ones less often), then all others", len(oft)), oft, 1, func(w *W, t string) {
			w.Case(func() string { return fmt.Sprintf("%s: %q again and again", g.name, t) }, func() {
				n := c.quickOr(70000, 300000)
				most := c.quickOr(300000, 3000000)
				if g.name == "lua" {
					most /= 5
				}
				if most /= len(t) + 1; n > most {
					n = most
				}
				first := readOutcome(g.fresh(), t)
				r := g.fresh()
				for i := 0; i < n; i++ {
					s := tok.NewScanner(t)
					err := r.Read(s)
					w.trans++
					if (err == nil) != strings.HasPrefix(first, "ok") {
						w.Fail("read %d: error %v, with a fresh grammar %s", i, err, first)
						return
					}
				}
				if got := readOutcome(r, t); got != first {
					w.Fail("after %d reads: %s, with a fresh grammar %s", n, got, first)
					return
				}
				for _, x := range all {
					w.trans += 2
					if got, want := readOutcome(r, x), readOutcome(g.fresh(), x); got != want {
						w.Fail("%q after %d reads: %s, with a fresh grammar %s", x, n, got, want)
						return
					}
				}
			})
		})
		overList(c, "after-"+g.name, fmt.Sprintf("every document cut or broken at every place, then each of %d texts", len(all)), uniq(cuts), 8, func(w *W, t string) {
			w.Case(func() string { return fmt.Sprintf("%s after %q", g.name, t) }, func() {
				for _, x := range all {
					w.trans += 2
					want := readOutcome(g.fresh(), x)
					r := g.fresh()
					readOutcome(r, t)
					if got := readOutcome(r, x); got != want {
						w.Fail("%q: %s, with a fresh grammar %s", x, got, want)
						return
					}
				}
			})
		})
	}
}

// reusePicks: a grammar that is used with baskets, logs and maps again and again.
func reusePicks(c *Ctx) {
	for _, g := range reuseTexts() {
		g := g
		n := len(g.texts)
		pick := func(x tok.Grammar, t string) string {
			s := tok.NewScanner(t)
			b := s.NewBasketFor(x)
			out := outcomeOn(x, s)
			return out + fmt.Sprint(segsOf(b.Picked()))
		}
		// the same rules are picked, not wrapped again
		pickOnce := func(x tok.Grammar, b *tok.Basket, t string) string {
			s := tok.NewScanner(t)
			clearBasket(b)
			s.Tracker = b
			out := outcomeOn(x, s)
			return out + fmt.Sprint(segsOf(b.Picked()))
		}
		monitor := func(x tok.Grammar, l *tok.Log, t string) string {
			l.Reset()
			out := readOutcome(x, t)
			return out + fmt.Sprint(l.Entries)
		}
		c.Phase("baskets-"+g.name, fmt.Sprintf("all triples of %d texts: a new basket for each read, one basket for all reads, one log for all reads", n), n*n, func(w *W, u int) {
			w.Case(func() string { return fmt.Sprintf("%s: %q, %q", g.name, g.texts[u/n], g.texts[u%n]) }, func() {
				seq := []string{g.texts[u/n], g.texts[u%n]}
				x := g.fresh()
				y := g.fresh()
				yb := &tok.Basket{}
				yb.PickWith(y.Grammar()...)
				z := g.fresh()
				l := tok.MonitorGrammar(z)
				seq = append(seq, g.texts...)
				for i, t := range seq {
					if i > 5 && !c.thorough {
						break
					}
					w.trans += 3
					want := pick(g.fresh(), t)
					if got := pick(x, t); got != want {
						w.Fail("read %d, %q: %s, with a fresh grammar %s", i, t, got, want)
						return
					}
					if got := pickOnce(y, yb, t); got != want {
						w.Fail("read %d with one basket, %q: %s, with a fresh grammar %s", i, t, got, want)
						return
					}
					m := g.fresh()
					wantLog := monitor(m, tok.MonitorGrammar(m), t)
					if got := monitor(z, l, t); got != wantLog {
						w.Fail("read %d with one log, %q: %s, with a fresh grammar %s", i, t, got, wantLog)
						return
					}
				}
			})
		})
	}
}
