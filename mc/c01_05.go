package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

func init() {
	register("C01", "every sequence of move and scan calls up to the bound on every text up to the bound; after each call position, Head/Tail/Mark/AtStart/AtEnd/Since/Get and the coupled tracker are compared with the model", checkC01)
	register("C02", "every If function with every listed argument on every text at every byte position; result and position compared with the model", checkC02)
	register("C03", "every To function with every listed argument on every text at every byte position; result and position compared with the model", checkC03)
	register("C04", "every While function with every listed argument on every text at every byte position; result and position compared with the model", checkC04)
	register("C05", "every Rev function with every listed argument on every text at every byte position, and the mirror law against the forward function on the reversed text", checkC05)
}

// ---------------------------------------------------------------------- C01

type recTracker struct {
	n    int
	last int
	bad  int
	size int
	min  int // of the told positions
	max  int
}

func (r *recTracker) Update(m tok.Marker) {
	if r.n == 0 || int(m) < r.min {
		r.min = int(m)
	}
	if r.n == 0 || int(m) > r.max {
		r.max = int(m)
	}
	r.n++
	r.last = int(m)
	if int(m) < 0 || int(m) > r.size {
		r.bad++
	}
}

// consistent compares everything that the scanner tells about its position.
func consistent(w *W, s *tok.Scanner, t string, p int) {
	if int(s.Mark()) != p {
		w.Fail("Mark() is %d, expected %d", s.Mark(), p)
		return
	}
	if s.Head() != t[:p] || s.Tail() != t[p:] {
		w.Fail("Head() is %q and Tail() is %q at %d", s.Head(), s.Tail(), p)
	}
	if s.AtStart() != (p == 0) || s.AtEnd() != (p == len(t)) {
		w.Fail("AtStart() is %v and AtEnd() is %v at %d", s.AtStart(), s.AtEnd(), p)
	}
}

func sinceAndGet(w *W, s *tok.Scanner, t string, p int) {
	for m := 0; m <= len(t); m++ {
		a, b := m, p
		if a > b {
			a, b = b, a
		}
		if got := s.Since(tok.Marker(m)); got != t[a:b] {
			w.Fail("Since(%d) is %q at %d", m, got, p)
		}
		if got := s.Get(tok.MakeToken(tok.Marker(m), tok.Marker(p))); got != t[a:b] {
			w.Fail("Get([%d,%d)) is %q", m, p, got)
		}
	}
	w.trans += int64(2 * (len(t) + 1))
	if int(s.Mark()) != p {
		w.Fail("Since or Get moved the scanner to %d", s.Mark())
	}
}

func moveOps(size int) []op {
	res := []op{opToEnd(), opToStart()}
	for n := -size - 2; n <= size+2; n++ {
		res = append(res, opMove(n), opToMarker(n))
	}
	for n := -5; n <= 5; n++ {
		res = append(res, opMoveRunes(n))
	}
	for _, n := range []int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, math.MaxInt32, math.MinInt32, 1 << 40, -1 << 40} {
		res = append(res, opMove(n), opToMarker(n))
	}
	return res
}

// the model of MoveRunes is a loop over n, so the huge counts get their own model
func opMoveRunesHuge(n int) op {
	return op{name: fmt.Sprintf("MoveRunes(%d)", n),
		do:    func(s *tok.Scanner) bool { return s.MoveRunes(n) },
		model: func(t string, p int) sres { return stay(p) }}
}

func hugeRunes() []op {
	res := []op{}
	for _, n := range []int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, math.MaxInt32, math.MinInt32, 1 << 40, -1 << 40, 1000, -1000} {
		res = append(res, opMoveRunesHuge(n))
	}
	return res
}

// applyTracked is apply with a coupled tracker.
func applyTracked(w *W, s *tok.Scanner, tr *recTracker, t string, p int, o *op) (int, bool) {
	want := o.model(t, p)
	w.note = o.name
	tr.n, tr.bad = 0, 0
	ok := o.do(s)
	got := int(s.Mark())
	w.trans++
	if want.skip {
		want.pos, want.ok = got, ok
	}
	if ok != want.ok || got != want.pos {
		if o.known != nil && o.known(t, p, want, got, ok) != "" {
			return got, true // judged by its own property
		}
		w.Fail("returned %v and moved to %d, expected %v and %d", ok, got, want.ok, want.pos)
		return got, false
	}
	if tr.bad > 0 {
		w.Fail("the tracker was told a position outside of the text")
	}
	if got != p && tr.n == 0 {
		w.Fail("moved from %d to %d without telling the tracker", p, got)
	}
	if tr.n > 0 && tr.last != got {
		w.Fail("the tracker was told %d last, but the scanner is at %d", tr.last, got)
	}
	if tr.n > 0 && (tr.min < p && tr.min < got || tr.max > p && tr.max > got) {
		switch name, _, _ := strings.Cut(o.name, "("); name {
		case "Move", "MoveRunes", "ToMarker", "ToStart", "ToEnd":
			w.Fail("moved from %d to %d, but the tracker was told %d..%d", p, got, tr.min, tr.max)
		}
	}
	consistent(w, s, t, got)
	return got, !w.failed
}

func checkC01(c *Ctx) {
	longTexts(c, longCalls("C01"))
	runCounts(c)
	symbols := []string{"a", "ä", "€", "😀", "\uFFFD", "\xff", "\xc3", "\xa4"}
	// one call from every state, all move calls
	overList(c, "one-call", "texts of up to 4 of 8 symbols, every byte position, offsets -len-2..len+2 and extreme values", texts(symbols, c.quickOr(4, 5)), 64, func(w *W, t string) {
		ops := append(moveOps(len(t)), hugeRunes()...)
		for p := 0; p <= len(t); p++ {
			p := p
			w.Case(func() string { return fmt.Sprintf("text %q at %d", t, p) }, func() {
				s := tok.NewScanner(t)
				tr := &recTracker{size: len(t)}
				s.Tracker = tr
				for i := range ops {
					if cur := int(s.Mark()); cur != p {
						if !s.ToMarker(tok.Marker(p)) || int(s.Mark()) != p {
							w.Fail("ToMarker(%d) fails", p)
							return
						}
					}
					if _, ok := applyTracked(w, s, tr, t, p, &ops[i]); !ok {
						return
					}
				}
				s.ToMarker(tok.Marker(p))
				sinceAndGet(w, s, t, p)
			})
		}
	})
	specialMoves(c)
	// without a tracker
	single(c, "no-tracker", "texts of up to 3 of 8 symbols, every byte position", texts(symbols, 3), 16, append(moveOps(8), hugeRunes()...))
	// all sequences of calls on one scanner
	depth := c.quickOr(4, 5)
	seqOps := func(t string) []op {
		ops := []op{opToEnd(), opToStart(), opIf("a"), opTo("ä"), opRevIf("a"), opRevTo("a"), opIfRune('ä'), opRevIfRune('ä')}
		for _, n := range []int{-2, -1, 0, 1, 2, 4, len(t) + 1} {
			ops = append(ops, opMove(n))
		}
		for _, n := range []int{-3, -2, -1, 0, 1, 2, 3} {
			ops = append(ops, opMoveRunes(n))
		}
		for _, n := range []int{-1, 0, 1, 2, len(t), len(t) + 1} {
			ops = append(ops, opToMarker(n))
		}
		ops = append(ops, whileRune("a"), opRevReadRune(), revWhileRune("a"), opScan(1), opScan(2))
		return ops
	}
	seqTexts := uniq(append(texts([]string{"a", "ä", "\xff"}, 3), "a€", "😀a", "a\uFFFDa", "äaaä", "aaaa", "\xc3\xc3a"))
	overList(c, "call-sequences", fmt.Sprintf("all sequences of %d calls out of 35 on one scanner, start at both ends", depth), seqTexts, 1, func(w *W, t string) {
		ops := seqOps(t)
		for start := 0; start <= 1; start++ {
			for first := range ops {
				start, first := start, first
				w.Case(func() string {
					return fmt.Sprintf("text %q from %d, all sequences beginning with %s", t, start*len(t), ops[first].name)
				}, func() {
					idx := make([]int, depth)
					idx[0] = first
					for {
						var s *tok.Scanner
						p := 0
						if start == 0 {
							s = tok.NewScanner(t)
						} else {
							s = tok.NewRevScanner(t)
							p = len(t)
						}
						tr := &recTracker{size: len(t)}
						s.Tracker = tr
						consistent(w, s, t, p)
						for d := 0; d < depth; d++ {
							w.states++
							np, ok := applyTracked(w, s, tr, t, p, &ops[idx[d]])
							if !ok {
								return
							}
							p = np
						}
						k := depth - 1
						for k > 0 {
							idx[k]++
							if idx[k] < len(ops) {
								break
							}
							idx[k] = 0
							k--
						}
						if k == 0 {
							return
						}
					}
				})
			}
		}
	})
	// every code point counts as one rune in both directions
	allRunes(c, "all-code-points", func(w *W, r rune) {
		t := "x" + string(r) + "y"
		l := len(t)
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for _, x := range []struct{ from, n, to int }{{0, 1, 1}, {1, 1, l - 1}, {0, 2, l - 1}, {0, 3, l}, {l, -1, l - 1}, {l - 1, -1, 1}, {l, -2, 1}, {l, -3, 0}} {
				s := at(w, t, x.from)
				w.trans++
				if !s.MoveRunes(x.n) || int(s.Mark()) != x.to {
					w.Fail("MoveRunes(%d) from %d moved to %d", x.n, x.from, s.Mark())
				}
			}
			if at(w, t, 0).MoveRunes(4) || at(w, t, l).MoveRunes(-4) {
				w.Fail("moved over 4 of 3 runes")
			}
		})
	})
	ladder(c, "ladder", 9999, func(run, sym string, n int) []ladderCase {
		all := run + "z"
		ops := []op{opMoveRunes(n), opMoveRunes(n + 1), opMoveRunesHuge(n + 2), opMove(len(run)), opMove(len(all)), opMove(len(all) + 1), opToMarker(len(run)), opToEnd(), opToMarker(len(all) + 1)}
		rev := []op{opMoveRunes(-n), opMoveRunes(-n - 1), opMoveRunesHuge(-n - 2), opMove(-len(run)), opMove(-len(all)), opMove(-len(all) - 1), opToStart(), opToMarker(-1), opToMarker(1)}
		mid := []op{}
		if n > 1 {
			mid = []op{opMoveRunes(n / 2), opMoveRunes(-n / 2), opMoveRunes(n - 1), opMoveRunes(-n + 1)}
		}
		return []ladderCase{{all, 0, ops}, {all, len(all), rev}, {all, len(sym) * (n / 2), mid}}
	})
}

func opIfRune(r rune) op    { return runeOps(r)["If"] }
func opRevIfRune(r rune) op { return revRuneOps(r)["If"] }
func whileRune(s string) op {
	return runeOps(firstRune(s))["While"]
}
func revWhileRune(s string) op {
	return revRuneOps(firstRune(s))["While"]
}

func opScan(n int) op {
	return op{name: fmt.Sprintf("ScanString(%d)", n),
		do: func(s *tok.Scanner) bool {
			_, ok := s.ScanString(n)
			return ok
		},
		model: func(t string, p int) sres { return opMoveRunes(n).model(t, p) }}
}

// ---------------------------------------------------------------- C02, C03, C04

func checkC02(c *Ctx) {
	longTexts(c, longCalls("C02"))
	ops := ifOps()
	single(c, "small-texts", fmt.Sprintf("texts of up to %d of %d symbols, every byte position, %d calls", c.quickOr(4, 5), len(textSymbols), len(ops)), texts(textSymbols, c.quickOr(4, 5)), 32, ops)
	few := []string{"a", "b", "ä", "\xff"}
	single(c, "longer-texts", fmt.Sprintf("texts of 4..%d of 4 symbols", c.quickOr(7, 8)), texts(few, c.quickOr(7, 8))[85:], 32, ops)
	foldTexts(c, "fold", func(arg string) []op { return []op{opIfFold(arg)} }, false)
	allRunes(c, "all-code-points", func(w *W, r rune) {
		str := string(r)
		t := str + "y"
		ops := []op{opIf(str), opIfFold(str), runeOps(r)["If"], runeOps(r + 1)["If"], anyRuneOps("Q" + str)["If"], betweenOps(r, r)["If"], betweenOps(r+1, utf8.MaxRune)["If"], betweenOps(0, r-1)["If"],
			matchOps("r", isRune(r))["If"]}
		for _, f := range orbit(r) {
			ops = append(ops, opIfFold(string(f)))
		}
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for i := range ops {
				apply(w, at(w, t, 0), t, 0, &ops[i])
				apply(w, at(w, str, 0), str, 0, &ops[i])
			}
			// the fold variants as text
			for _, f := range orbit(r) {
				t := string(f)
				for i := range ops {
					apply(w, at(w, t, 0), t, 0, &ops[i])
				}
			}
		})
	})
	strangers(c, []string{"If"}, false)
	specialSingle(c, []string{"If"}, false)
	listChoices(c, opIfAny)
	histories(c, "histories", histOps([]string{"If"}, false), histTexts, c.quickOr(3, 4))
	histories(c, "histories-2", ifOps(), histTexts, 2)
	ladder(c, "ladder", 9999, func(run, sym string, n int) []ladderCase {
		r := firstRune(sym)
		flip := strings.ToUpper(run)
		low := strings.ToLower(run)
		ops := []op{opIf(run), opIf(run + "z"), opIf(run + sym), opIf(run[:len(run)-1] + "q"), opIfFold(run), opIfFold(flip), opIfFold(low), opIfFold(run + "Z"), opIfFold(run + sym),
			opIfAny("q", run+"q", run, sym), anyRuneOps(strings.Repeat("q", n) + sym)["If"], anyRuneOps(strings.Repeat("q", n))["If"], runeOps(r)["If"], betweenOps(r, r)["If"]}
		strs := []string{}
		for i := 0; i < n && i < 300; i++ {
			strs = append(strs, "q")
		}
		ops = append(ops, opIfAny(append(strs, sym)...))
		return []ladderCase{{run + "z", 0, ops}, {run, 0, ops}, {"z" + run + "z", 1, ops}, {run + "z", len(run), ops}, {run + "z", len(run) + 1, ops}, {run, len(run) - len(sym), ops}}
	})
	readerLeaves(c, "readers", c.quickOr(2, 3))
}

// foldTexts: every text over fold variants with every argument over them.
func foldTexts(c *Ctx, phase string, mk func(arg string) []op, rev bool) {
	syms := []string{"k", "K", "\u212A", "s", "S", "ſ", "ä", "Ä", "1", "\xff", "\uFFFD", "ß", "ẞ", "Σ", "σ", "ς"}
	args := texts(syms, 2)
	ops := []op{}
	for _, a := range args {
		ops = append(ops, mk(a)...)
	}
	single(c, phase, "texts of up to 2 of 16 fold variants (3 of 8), arguments of up to 2 of 16", uniq(append(texts(syms, 2), texts(syms[:8], c.quickOr(3, 4))...)), 8, ops)
}

func checkC03(c *Ctx) {
	longTexts(c, longCalls("C03"))
	ops := toOps()
	single(c, "small-texts", fmt.Sprintf("texts of up to %d of %d symbols, every byte position, %d calls", c.quickOr(4, 5), len(textSymbols), len(ops)), texts(textSymbols, c.quickOr(4, 5)), 32, ops)
	few := []string{"a", "b", "ä", "\xff"}
	single(c, "longer-texts", fmt.Sprintf("texts of 4..%d of 4 symbols", c.quickOr(7, 8)), texts(few, c.quickOr(7, 8))[85:], 32, ops)
	// overlapping appearances: all arguments of up to 4 over two symbols
	two := []string{"a", "b"}
	over := []op{}
	for _, s := range texts(two, 4) {
		over = append(over, opTo(s), opToFold(strings.ToUpper(s)))
	}
	single(c, "overlaps", fmt.Sprintf("texts of up to %d of {a b}, arguments of up to 4", c.quickOr(9, 12)), texts(two, c.quickOr(9, 12)), 8, over)
	foldTexts(c, "fold", func(arg string) []op { return []op{opToFold(arg)} }, false)
	allRunes(c, "all-code-points", func(w *W, r rune) {
		str := string(r)
		t := "z" + str + "y"
		ops := []op{opTo(str), opToFold(str), runeOps(r)["To"], anyRuneOps("Q" + str)["To"], betweenOps(r, r)["To"], matchOps("r", isRune(r))["To"]}
		for _, f := range orbit(r) {
			ops = append(ops, opToFold(string(f)), opTo(string(f)))
		}
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for i := range ops {
				apply(w, at(w, t, 0), t, 0, &ops[i])
				apply(w, at(w, t, 1), t, 1, &ops[i])
				apply(w, at(w, t, len(t)-1), t, len(t)-1, &ops[i])
			}
		})
	})
	strangers(c, []string{"To"}, false)
	specialSingle(c, []string{"To"}, false)
	histories(c, "histories", histOps([]string{"To"}, false), histTexts, c.quickOr(3, 4))
	histories(c, "histories-2", toOps(), histTexts, 2)
	ladder(c, "ladder", 9999, func(run, sym string, n int) []ladderCase {
		r := firstRune(sym)
		if n > 1100 && n != 5000 && n != 9999 {
			return nil
		}
		z := []op{opTo("z"), opToFold("Z"), runeOps('z')["To"], anyRuneOps("yz")["To"], betweenOps('y', 'z')["To"], matchOps("z", isRune('z'))["To"], opTo("zz"), opTo(sym + "z"), opToFold(sym + "z"), opTo(run)}
		s := []op{opTo(sym), opToFold(sym), runeOps(r)["To"], anyRuneOps("y" + sym)["To"], betweenOps(r, r)["To"], matchOps("r", isRune(r))["To"], opTo(run), opTo("z")}
		pad := strings.Repeat("q", n)
		return []ladderCase{{run + "z", 0, z}, {run + "zz", 0, z}, {run, 0, z}, {"z" + run + "z", 1, z}, {pad + run, 0, s}, {pad + run, n - 1, s}, {pad, 0, s}, {run + pad, len(run), s}, {pad + sym, 0, s}}
	})
}

func checkC04(c *Ctx) {
	longTexts(c, longCalls("C04"))
	ops := whileOps()
	single(c, "small-texts", fmt.Sprintf("texts of up to %d of %d symbols, every byte position, %d calls", c.quickOr(4, 5), len(textSymbols), len(ops)), texts(textSymbols, c.quickOr(4, 5)), 16, ops)
	few := []string{"a", "b", "ä", "\xff"}
	single(c, "longer-texts", fmt.Sprintf("texts of up to %d of 4 symbols", c.quickOr(8, 10)), texts(few, c.quickOr(8, 10)), 64, ops)
	allRunes(c, "all-code-points", func(w *W, r rune) {
		str := string(r)
		ops := []op{runeOps(r)["While"], anyRuneOps("Q" + str)["While"], betweenOps(r, r)["While"], matchOps("r", isRune(r))["While"], runeOps(r + 1)["While"], betweenOps(r+1, utf8.MaxRune)["While"]}
		txts := []string{str + str + "y", str + str, str + "\x00" + str, "y" + str}
		w.Case(func() string { return fmt.Sprintf("rune %q", str) }, func() {
			for _, t := range txts {
				for i := range ops {
					apply(w, at(w, t, 0), t, 0, &ops[i])
				}
			}
		})
	})
	strangers(c, []string{"While"}, false)
	specialSingle(c, []string{"While"}, false)
	histories(c, "histories", histOps([]string{"While"}, false), histTexts, c.quickOr(3, 4))
	histories(c, "histories-2", whileOps(), histTexts, 2)
	ladder(c, "ladder", 65537, func(run, sym string, n int) []ladderCase {
		r := firstRune(sym)
		s := []op{runeOps(r)["While"], anyRuneOps("y" + sym)["While"], betweenOps(r, r)["While"], matchOps("r", isRune(r))["While"], runeOps('z')["While"], matchOps("all", func(rune) bool { return true })["While"]}
		return []ladderCase{{run + "z", 0, s}, {run, 0, s}, {"z" + run + "z", 1, s}, {run + "z" + run, 0, s}, {run + "z", len(run), s}, {run + "z", len(run) + 1, s}}
	})
}

// strangers: every code point next to a few fixed arguments. A rune that is cut
// to some of its bits, or compared by some of its bytes, meets one of them.
func strangers(c *Ctx, kinds []string, rev bool) {
	ops := []op{}
	for _, set := range []string{"a", "az", "aä", "€", "a€", "0😀", "\x00", "\x7f\u0080", "\uFFFD", "\xff"} {
		m := anyRuneOps(set)
		if rev {
			m = revAnyRuneOps(set)
		}
		for _, k := range kinds {
			ops = append(ops, m[k])
		}
	}
	for _, b := range [][2]rune{{'a', 'z'}, {'0', '9'}, {0, 0x7f}, {0x80, 0x7ff}, {0x800, 0xffff}, {0x10000, utf8.MaxRune}, {'ä', 'ü'}, {'a', '€'}} {
		m := betweenOps(b[0], b[1])
		if rev {
			m = revBetweenOps(b[0], b[1])
		}
		for _, k := range kinds {
			ops = append(ops, m[k])
		}
	}
	for _, r := range []rune{0, 'a', 'k', 'ä', '€', '😀', utf8.RuneError, utf8.MaxRune} {
		m := runeOps(r)
		if rev {
			m = revRuneOps(r)
		}
		for _, k := range kinds {
			ops = append(ops, m[k])
		}
	}
	for _, str := range []string{"a", "k", "ab", "ä", "€", "😀", "ka"} {
		for _, k := range kinds {
			switch {
			case k == "If" && rev:
				ops = append(ops, opRevIf(str), opRevIfFold(str), opRevIfAny("q", str))
			case k == "If":
				ops = append(ops, opIf(str), opIfFold(str), opIfAny("q", str))
			case k == "To" && rev:
				ops = append(ops, opRevTo(str), opRevToFold(str))
			case k == "To":
				ops = append(ops, opTo(str), opToFold(str))
			}
		}
	}
	allRunes(c, "strangers", func(w *W, r rune) {
		v := string(r)
		w.Case(func() string { return fmt.Sprintf("rune %q", v) }, func() {
			for _, t := range []string{v, "a" + v, v + "a", v + "b", "k" + v + "ä", "€" + v + v} {
				p := 0
				if rev {
					p = len(t)
				}
				for i := range ops {
					apply(w, at(w, t, p), t, p, &ops[i])
				}
			}
		})
	})
}

// ---------------------------------------------------------------------- C05

func checkC05(c *Ctx) {
	longTexts(c, longCalls("C05"))
	ops := revOps()
	single(c, "small-texts", fmt.Sprintf("texts of up to %d of %d symbols, every byte position, %d calls", c.quickOr(4, 5), len(textSymbols), len(ops)), texts(textSymbols, c.quickOr(4, 5)), 32, ops)
	few := []string{"a", "b", "ä", "\xff"}
	single(c, "longer-texts", fmt.Sprintf("texts of 4..%d of 4 symbols", c.quickOr(7, 8)), texts(few, c.quickOr(7, 8))[85:], 32, ops)
	two := []string{"a", "b"}
	over := []op{}
	for _, s := range texts(two, 4) {
		over = append(over, opRevTo(s), opRevToFold(strings.ToUpper(s)), opRevIf(s))
	}
	single(c, "overlaps", fmt.Sprintf("texts of up to %d of {a b}, arguments of up to 4", c.quickOr(9, 12)), texts(two, c.quickOr(9, 12)), 8, over)
	foldTexts(c, "fold", func(arg string) []op { return []op{opRevIfFold(arg), opRevToFold(arg)} }, true)
	mirror(c)
	allRunes(c, "all-code-points", func(w *W, r rune) {
		str := string(r)
		ops := []op{opRevReadRune(), opRevIf(str), opRevIfFold(str), opRevTo(str), opRevToFold(str)}
		for _, f := range orbit(r) {
			ops = append(ops, opRevIfFold(string(f)), opRevToFold(string(f)))
		}
		for _, m := range []map[string]op{revRuneOps(r), revAnyRuneOps("Q" + str), revBetweenOps(r, r), revMatchOps("r", isRune(r)), revRuneOps(r + 1)} {
			ops = append(ops, m["If"], m["To"], m["While"])
		}
		txts := []string{"y" + str, str + str, str, "y" + str + "z"}
		w.Case(func() string { return fmt.Sprintf("rune %q", str) }, func() {
			for _, t := range txts {
				for i := range ops {
					apply(w, at(w, t, len(t)), t, len(t), &ops[i])
				}
				s := at(w, t, len(t))
				w.note = "RevReadRune"
				want, _ := utf8.DecodeLastRuneInString(t)
				if got, err := s.RevReadRune(); err != nil || got != want {
					w.Fail("read %U, %v; expected %U", got, err, want)
				}
			}
		})
	})
	strangers(c, []string{"If", "To", "While"}, true)
	specialSingle(c, []string{"If", "To", "While"}, true)
	listChoices(c, opRevIfAny)
	histories(c, "histories-2", revOps(), histTexts[:6], 2)
	for _, k := range []string{"If", "To", "While"} {
		histories(c, "histories-"+k, histOps([]string{k}, true), histTexts, c.quickOr(3, 4))
	}
	ladder(c, "ladder", 9999, func(run, sym string, n int) []ladderCase {
		r := firstRune(sym)
		if n > 1100 && n != 5000 && n != 9999 {
			return nil
		}
		s := []op{opRevIf(run), opRevIf("q" + run), opRevIf(sym + run), opRevIfFold(run), opRevIfFold(strings.ToUpper(run)), opRevIfFold(strings.ToLower(run)), opRevIfFold(sym + run), opRevTo("z"), opRevToFold("Z"), opRevTo("z" + sym), opRevToFold("Z" + sym), opRevTo(run),
			opRevIfAny("q", "q"+run, run, sym)}
		for _, m := range []map[string]op{revRuneOps(r), revRuneOps('z'), revAnyRuneOps("y" + sym), revAnyRuneOps(strings.Repeat("q", n) + sym), revBetweenOps(r, r), revBetweenOps('y', 'z'), revMatchOps("r", isRune(r)), revMatchOps("z", isRune('z')), revMatchOps("all", func(rune) bool { return true })} {
			s = append(s, m["If"], m["To"], m["While"])
		}
		return []ladderCase{{"z" + run, 1 + len(run), s}, {run, len(run), s}, {"z" + run + "z", 1 + len(run), s}, {run + "z" + run, 2*len(run) + 1, s}, {run, 0, s}, {"z" + run, 1, s}}
	})
}

func reverse(s string) string {
	rs := runes(s)
	var b strings.Builder
	for i := len(rs) - 1; i >= 0; i-- {
		b.WriteString(rs[i])
	}
	return b.String()
}

// mirror compares the implementation with itself: Rev* on t at p against the
// forward function on the reversed text. RevTo moves to the end of the last
// appearance, which is the begin of the first one in the mirror.
func mirror(c *Ctx) {
	syms := []string{"a", "b", "ä", "😀", "k", "\u212A", "\xff"}
	type pair struct{ fwd, rev op }
	pairs := []pair{}
	for _, s := range []string{"a", "ab", "ba", "aa", "ä", "aä", "😀", "😀b", "\xff"} {
		pairs = append(pairs, pair{opIf(reverse(s)), opRevIf(s)}, pair{opTo(reverse(s)), opRevTo(s)}, pair{opIfFold(reverse(s)), opRevIfFold(s)}, pair{opToFold(reverse(s)), opRevToFold(s)})
	}
	fw, bw := fwdPredOps(), revPreds()
	for i := range fw {
		for _, k := range []string{"If", "To", "While"} {
			pairs = append(pairs, pair{fw[i][k], bw[i][k]})
		}
	}
	overList(c, "mirror", fmt.Sprintf("texts of up to %d of 7 symbols, every rune position, %d pairs", c.quickOr(4, 5), len(pairs)), texts(syms, c.quickOr(4, 5)), 16, func(w *W, t string) {
		rs := runes(t)
		rt := reverse(t)
		p := 0
		for i := 0; i <= len(rs); i++ {
			pos := p
			w.Case(func() string { return fmt.Sprintf("text %q at %d", t, pos) }, func() {
				for j := range pairs {
					x := &pairs[j]
					w.note = x.rev.name + " mirrors " + x.fwd.name
					w.trans++
					if x.rev.model(t, pos).skip || x.fwd.model(rt, len(t)-pos).skip {
						continue
					}
					a := at(w, t, pos)
					aok := x.rev.do(a)
					b := at(w, rt, len(t)-pos)
					bok := x.fwd.do(b)
					am, bm := int(a.Mark()), len(t)-int(b.Mark())
					if x.fwd.known != nil && !aokEqual(aok, bok, am, bm) && bok && bm == pos && am == 0 {
						continue // the known finding of WhileAnyRune, judged in C04
					}
					if aok != bok || am != bm {
						w.Fail("returned %v and moved to %d, the mirror %v and %d", aok, am, bok, bm)
					}
				}
			})
			if i < len(rs) {
				p += len(rs[i])
			}
		}
	})
}

func aokEqual(a, b bool, am, bm int) bool { return a == b && am == bm }

// readerLeaves: the readers that are built on the If functions.
func readerLeaves(c *Ctx, phase string, n int) {
	type lf struct {
		r tok.Reader
		o op
	}
	lfs := []lf{}
	for _, s := range strArgs {
		lfs = append(lfs, lf{tok.Lit(s), opIf(s)}, lf{tok.Fold(s), opIfFold(s)})
	}
	for _, r := range runeArgs {
		lfs = append(lfs, lf{tok.Rune(r), runeOps(r)["If"]})
	}
	for _, s := range setArgs {
		lfs = append(lfs, lf{tok.AnyRune(s), anyRuneOps(s)["If"]})
	}
	for _, r := range rangeArgs {
		lfs = append(lfs, lf{tok.Between(r.min, r.max), betweenOps(r.min, r.max)["If"]})
	}
	overList(c, phase, fmt.Sprintf("the %d readers built on these functions, texts of up to %d symbols", len(lfs), n), texts(textSymbols, n), 8, func(w *W, t string) {
		for p := 0; p <= len(t); p++ {
			p := p
			w.Case(func() string { return fmt.Sprintf("text %q at %d", t, p) }, func() {
				for i := range lfs {
					o := lfs[i].o
					o.name = "Reader for " + o.name
					r := lfs[i].r
					o.do = func(s *tok.Scanner) bool { return r.Read(s) == nil }
					apply(w, at(w, t, p), t, p, &o)
				}
			})
		}
	})
}
