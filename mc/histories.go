package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// Calls on a scanner that was used before, long lists of arguments, long
// texts and infos with characters that have a meaning elsewhere.

// histories: all sequences of calls on one scanner; the scanner is moved to
// every position before each of them.
func histories(c *Ctx, phase string, ops []op, list []string, depth int) {
	overList(c, phase, fmt.Sprintf("%d texts, all sequences of %d calls out of %d, each at every position, on one scanner", len(list), depth, len(ops)), list, 1, func(w *W, t string) {
		k := len(t) + 1
		n := k * len(ops)
		for first := 0; first < n; first++ {
			first := first
			w.Case(func() string {
				return fmt.Sprintf("text %q, calls beginning with %s at %d", t, ops[first/k].name, first%k)
			}, func() {
				idx := make([]int, depth)
				idx[0] = first
				for !w.failed {
					s := tok.NewScanner(t)
					w.states++
					for d, i := range idx {
						s.ToMarker(tok.Marker(i % k))
						want := ops[i/k].model(t, i%k)
						ok := ops[i/k].do(s)
						w.trans++
						if !want.skip && (ok != want.ok || int(s.Mark()) != want.pos) {
							if f := ops[i/k].known; f != nil && f(t, i%k, want, int(s.Mark()), ok) != "" {
								continue
							}
							l := []string{}
							for _, i := range idx[:d+1] {
								l = append(l, fmt.Sprintf("%s at %d", ops[i/k].name, i%k))
							}
							w.Fail("%s: the last call returned %v and moved to %d, expected %v and %d", strings.Join(l, ", "), ok, s.Mark(), want.ok, want.pos)
							return
						}
					}
					d := depth - 1
					for d > 0 {
						idx[d]++
						if idx[d] < n {
							break
						}
						idx[d] = 0
						d--
					}
					if d == 0 {
						return
					}
				}
			})
		}
	})
}

// histOps: few calls of each kind, with arguments that overlap.
func histOps(kinds []string, rev bool) []op {
	res := []op{}
	for _, k := range kinds {
		switch {
		case k == "If" && rev:
			res = append(res, opRevIf("a"), opRevIf("ab"), opRevIfFold("A"), opRevIfFold("aB"), opRevIfAny("b", "ab"))
		case k == "If":
			res = append(res, opIf("a"), opIf("ab"), opIfFold("A"), opIfFold("aB"), opIfAny("b", "ab"))
		case k == "To" && rev:
			res = append(res, opRevTo("a"), opRevTo("ab"), opRevToFold("A"), opRevToFold("aB"))
		case k == "To":
			res = append(res, opTo("a"), opTo("ab"), opToFold("A"), opToFold("aB"))
		}
		for _, r := range []rune{'a', 'b', 'ä'} {
			if rev {
				res = append(res, revRuneOps(r)[k])
			} else {
				res = append(res, runeOps(r)[k])
			}
		}
		if rev {
			res = append(res, revAnyRuneOps("ab")[k], revBetweenOps('a', 'b')[k], revMatchOps("a", isRune('a'))[k])
		} else {
			res = append(res, anyRuneOps("ab")[k], betweenOps('a', 'b')[k], matchOps("a", isRune('a'))[k])
		}
	}
	return res
}

var histTexts = []string{"", "a", "ab", "aba", "bab", "abäa", "AbaB", "aab\xff", "ba\nab"}

// choices: lists of alternatives with the two that match at every pair of places.
func choices(n int) [][]string {
	res := [][]string{}
	small := texts([]string{"1", "2", "3", "4", "5", "6"}, 4)
	args := map[rune]string{'1': "", '2': "a", '3': "ab", '4': "b", '5': "ba", '6': "q"}
	for _, x := range small {
		l := []string{}
		for _, r := range x {
			l = append(l, args[r])
		}
		res = append(res, l)
	}
	for k := 5; k <= n; k++ {
		for i := 0; i < k; i++ {
			for j := 0; j < i; j++ {
				if k > 9 && j > 2 && j < i-2 && j != k/2 {
					continue
				}
				for _, v := range [][3]string{{"a", "ab", "q"}, {"ab", "a", "q"}, {"b", "ba", "bq"}, {"ba", "b", "qqqq"}, {"ab", "ba", "x"}, {"", "a", "qa"}} {
					l := make([]string, k)
					for m := range l {
						l[m] = v[2]
					}
					l[j], l[i] = v[0], v[1]
					res = append(res, l)
				}
			}
		}
	}
	return res
}

func listChoices(c *Ctx, mk func(strs ...string) op) {
	n := c.quickOr(20, 40)
	list := choices(n)
	txts := []string{"ab", "ba", "b", "aab", ""}
	c.Phase("alternatives", fmt.Sprintf("%d lists: all of up to 4 of 6 strings, those of 5..%d strings with two that match at every pair of places; %d texts, every position", len(list), n, len(txts)), (len(list)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(list) && i < (u+1)*64; i++ {
			w.Case(func() string { return fmt.Sprintf("list %s", qs(list[i])) }, func() {
				o := mk(list[i]...)
				for _, t := range txts {
					for p := 0; p <= len(t); p++ {
						apply(w, at(w, t, p), t, p, &o)
					}
				}
			})
		}
	})
}

// readChoices: the same lists as arguments of Any and AnyFold.
func readChoices(c *Ctx) {
	n := c.quickOr(20, 40)
	list := choices(n)
	c.Phase("alternatives", fmt.Sprintf("Any and AnyFold with %d lists: all of up to 4 of 6 strings, those of 5..%d strings with two that match at every pair of places; 5 texts, every position", len(list), n), (len(list)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(list) && i < (u+1)*64; i++ {
			w.Case(func() string { return fmt.Sprintf("list %s", qs(list[i])) }, func() {
				args := []interface{}{}
				up := []string{}
				for _, x := range list[i] {
					args = append(args, x)
					up = append(up, strings.ToUpper(x))
				}
				o := opIfAny(list[i]...)
				for k, r := range []tok.Reader{tok.Any(args...), tok.AnyFold(up...)} {
					for _, t := range []string{"ab", "ba", "b", "aab", ""} {
						for p := 0; p <= len(t); p++ {
							want := o.model(t, p)
							s := at(w, t, p)
							err := r.Read(s)
							w.trans++
							if (err == nil) != want.ok || int(s.Mark()) != want.pos {
								w.Fail("%s on %q at %d: moves to %d (%v), expected %d (%v)", []string{"Any", "AnyFold"}[k], t, p, s.Mark(), err, want.pos, want.ok)
							}
						}
					}
				}
			})
		}
	})
}

// longSize: more steps than a recursion can take.
const longSize = 1 << 24

// tickTracker shows the watchdog that the read goes on.
type tickTracker struct{ w *W }

func (t tickTracker) Update(tok.Marker) { t.w.trans++ }

type longCase struct {
	name string
	do   func(w *W, text string) (pos int, ok bool)
	end  int
	ok   bool
	pre  string // in front of the long run of a
	post string
}

func longReads() []longCase {
	use := func(name string, r tok.Reader, post string, end int, ok bool) longCase {
		return longCase{name, func(w *W, t string) (int, bool) {
			s := tok.NewScanner(t)
			s.Tracker = tickTracker{w}
			err := r.Read(s)
			return int(s.Mark()), err == nil
		}, end, ok, "", post}
	}
	n := longSize
	no := tok.Zom('b')
	return []longCase{
		use("Zom", tok.Zom('a'), "", n, true),
		use("Many", tok.Many(tok.Any('b', "a")), "c", n, true),
		use("Zom of Seq", tok.Zom(tok.Seq('a', no, 'a')), "", n, true),
		use("Times", tok.Times(n, tok.Lit("a")), "", n, true),
		use("Times, one more", tok.Times(n+1, tok.Lit("a")), "", 0, false),
		use("To", tok.To('b'), "b", n, true),
		use("Past", tok.Past("ab"), "b", n+1, true),
		use("Past without a match", tok.Past('b'), "", 0, false),
		use("Body", tok.Body(tok.Zom('a'), tok.Rune('b')), "b", n, true),
		use("BodyTail", tok.BodyTail(tok.Many('a'), tok.Rune('b')), "bb", n+1, true),
		use("Zom of Not", tok.Zom(tok.Not(tok.Rune('b'))), "b", n, true),
		use("SkipSeq", tok.SkipSeq(tok.Zom('a'), 'b', 'c'), "bc", n+2, true),
	}
}

// longCalls are the calls that belong to the property.
func longCalls(prop string) []longCase {
	n := longSize
	res := []longCase{}
	call := func(p, name string, text string, end int, f func(s *tok.Scanner) bool) {
		if p != prop {
			return
		}
		pre, post, _ := strings.Cut(text, "~")
		res = append(res, longCase{name, func(w *W, t string) (int, bool) {
			s := tok.NewScanner(t)
			ok := f(s)
			return int(s.Mark()), ok
		}, end, true, pre, post})
	}
	back := func(p, name string, text string, end int, f func(s *tok.Scanner) bool) {
		call(p, name, text, end, func(s *tok.Scanner) bool { return s.ToEnd() && f(s) })
	}
	isA, isB := tok.MatchFunc(isRune('a')), tok.MatchFunc(isRune('b'))
	as := func() string { return strings.Repeat("a", n) }
	call("C08", "While", "~b", n, func(s *tok.Scanner) bool { return s.While(func() bool { return s.IfRune('a') }) })
	call("C08", "Capture", "~b", n, func(s *tok.Scanner) bool {
		str, ok := s.Capture(func() bool { return s.WhileRune('a') })
		return ok && len(str) == n
	})
	call("C08", "CaptureUse", "~b", n, func(s *tok.Scanner) bool { str, err := s.CaptureUse(tok.Lit(as())); return err == nil && len(str) == n })
	call("C08", "Tokenize", "~b", n, func(s *tok.Scanner) bool {
		t, ok := s.Tokenize(func() bool { return s.WhileRune('a') })
		return ok && t.Len() == n
	})
	call("C02", "If", "~b", n, func(s *tok.Scanner) bool { return s.If(as()) })
	call("C02", "If, one more", "~b", n, func(s *tok.Scanner) bool { return !s.If(as()+"a") && s.Move(n) })
	call("C02", "IfFold", "~b", n, func(s *tok.Scanner) bool { return s.IfFold(strings.ToUpper(as())) })
	call("C02", "IfAny", "~b", n, func(s *tok.Scanner) bool { return s.IfAny("x", as()+"a", as()) })
	call("C04", "WhileRune", "~b", n, func(s *tok.Scanner) bool { return s.WhileRune('a') })
	call("C04", "WhileMatch", "~b", n, func(s *tok.Scanner) bool { return s.WhileMatch(isA) })
	call("C04", "WhileBetween", "~b", n, func(s *tok.Scanner) bool { return s.WhileBetween('a', 'a') })
	call("C04", "WhileAnyRune", "~b", n, func(s *tok.Scanner) bool { return s.WhileAnyRune("ac") })
	call("C04", "WhileRune to the end", "~", n, func(s *tok.Scanner) bool { return s.WhileRune('a') })
	call("C03", "ToRune", "~b", n, func(s *tok.Scanner) bool { return s.ToRune('b') })
	call("C03", "ToFold", "~b", n, func(s *tok.Scanner) bool { return s.ToFold("B") })
	call("C03", "ToAnyRune", "~b", n, func(s *tok.Scanner) bool { return s.ToAnyRune("bc") })
	call("C03", "ToBetween", "~b", n, func(s *tok.Scanner) bool { return s.ToBetween('b', 'c') })
	call("C03", "ToMatch", "~b", n, func(s *tok.Scanner) bool { return s.ToMatch(isB) })
	call("C03", "To", "~b", n-1, func(s *tok.Scanner) bool { return s.To("ab") })
	call("C03", "To without a match", "~b", 0, func(s *tok.Scanner) bool { return !s.To("ba") })
	call("C01", "MoveRunes", "~b", n, func(s *tok.Scanner) bool { return s.MoveRunes(n) })
	call("C01", "MoveRunes, too far", "~b", 0, func(s *tok.Scanner) bool { return !s.MoveRunes(n + 2) })
	call("C01", "Move", "~b", n, func(s *tok.Scanner) bool { return s.Move(n) && len(s.Head()) == n && s.Tail() == "b" })
	call("C01", "ToMarker", "~b", n, func(s *tok.Scanner) bool { return s.ToMarker(tok.Marker(n)) && len(s.Since(0)) == n })
	back("C01", "MoveRunes back", "b~", 1, func(s *tok.Scanner) bool { return s.MoveRunes(-n) })
	call("C07", "ScanString", "~b", n, func(s *tok.Scanner) bool { str, ok := s.ScanString(n); return ok && len(str) == n })
	call("C07", "ScanString, too far", "~b", 0, func(s *tok.Scanner) bool { _, ok := s.ScanString(n + 2); return !ok })
	back("C05", "RevWhileRune", "b~", 1, func(s *tok.Scanner) bool { return s.RevWhileRune('a') })
	back("C05", "RevWhileMatch", "b~", 1, func(s *tok.Scanner) bool { return s.RevWhileMatch(isA) })
	back("C05", "RevWhileBetween", "b~", 1, func(s *tok.Scanner) bool { return s.RevWhileBetween('a', 'a') })
	back("C05", "RevWhileAnyRune", "b~", 1, func(s *tok.Scanner) bool { return s.RevWhileAnyRune("ca") })
	back("C05", "RevToRune", "b~", 1, func(s *tok.Scanner) bool { return s.RevToRune('b') })
	back("C05", "RevToAnyRune", "b~", 1, func(s *tok.Scanner) bool { return s.RevToAnyRune("cb") })
	back("C05", "RevToMatch", "b~", 1, func(s *tok.Scanner) bool { return s.RevToMatch(isB) })
	back("C05", "RevToBetween", "b~", 1, func(s *tok.Scanner) bool { return s.RevToBetween('b', 'c') })
	back("C05", "RevTo", "b~", 1, func(s *tok.Scanner) bool { return s.RevTo("b") })
	back("C05", "RevToFold", "b~", 1, func(s *tok.Scanner) bool { return s.RevToFold("B") })
	back("C05", "RevIf", "b~", 1, func(s *tok.Scanner) bool { return s.RevIf(as()) })
	back("C05", "RevIfFold", "b~", 1, func(s *tok.Scanner) bool { return s.RevIfFold(strings.ToUpper(as())) })
	call("C06", "ReadInt with zeros", "", 1+n+1, func(s *tok.Scanner) bool {
		*s = *tok.NewScanner("-" + strings.Repeat("0", n) + "7x")
		v, err := s.ReadInt(10, 8)
		return err == nil && v == -7
	})
	call("C06", "ReadUint with zeros", "", n+4, func(s *tok.Scanner) bool {
		*s = *tok.NewScanner(strings.Repeat("0", n) + "1fFfx")
		v, err := s.ReadUint(16, 16)
		return err == nil && v == 0x1fff
	})
	call("C13", "Janus", "", 2*n+1, func(s *tok.Scanner) bool {
		*s = *tok.NewScanner(as() + "b" + as() + "b")
		beg, end := tok.Janus("j", tok.Many('a'))
		return s.Use(tok.Seq(beg, 'b', end)) == nil
	})
	call("C13", "Janus, one less", "", 0, func(s *tok.Scanner) bool {
		*s = *tok.NewScanner(as() + "b" + as()[1:] + "b")
		beg, end := tok.Janus("j", tok.Many('a'))
		return s.Use(tok.Seq(beg, 'b', end)) != nil
	})
	return res
}

func longTexts(c *Ctx, list []longCase) {
	c.Soft("long-texts", fmt.Sprintf("%d calls that repeat something %d times", len(list), longSize), len(list), 4, func(w *W, u int) {
		x := list[u]
		w.Case(func() string { return fmt.Sprintf("%s, %d times", x.name, longSize) }, func() {
			w.trans++
			if pos, ok := x.do(w, x.pre+strings.Repeat("a", longSize)+x.post); pos != x.end || ok != x.ok {
				w.Fail("%s ends at %d (%v), expected %d (%v)", x.name, pos, ok, x.end, x.ok)
			}
		})
	})
}

// lineHistories: LineCol at several positions of one scanner.
func lineHistories(c *Ctx, model func(t string, p, tab int) (int, int)) {
	n := c.quickOr(5, 6)
	list := texts([]string{"a", "\n", "\r", "\t"}, n)
	overList(c, "histories", fmt.Sprintf("texts of up to %d of 4 symbols, LineCol at all sequences of 3 positions (texts of up to 3: 4 positions) of one scanner, two tab widths", n), list, 16, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			depth := 3
			if len(t) <= 3 {
				depth = 4
			}
			var walk func(h []int)
			walk = func(h []int) {
				if w.failed {
					return
				}
				if len(h) == depth {
					s := tok.NewScanner(t)
					w.states++
					for i, x := range h {
						p, tab := x/2, 1+7*(x%2)
						s.ToMarker(tok.Marker(p))
						l, k := s.LineCol(tab)
						w.trans++
						if wl, wk := model(t, p, tab); l != wl || k != wk {
							w.Fail("LineCol(%d) at %d is %d:%d, expected %d:%d; it was called before at (twice the positions) %v", tab, p, l, k, wl, wk, h[:i])
							return
						}
					}
					return
				}
				for x := 0; x < 2*(len(t)+1); x++ {
					walk(append(h, x))
				}
			}
			walk(make([]int, 0, depth))
		})
	})
}

// strangeInfos: infos and names with characters that have a meaning for the
// functions that print them.
var strangeInfos = []string{"", " ", "%", "%d", "%%", "%s%v", "%!", "a%", ";", "a;b", ".", "1.", "@", "[0-1)", "\n", "\t", "\"", "\\", "\\n", "ä", "\xff", "\x00", "\u2028", "()", "::", strings.Repeat("x", 300)}

// manyPicks: more picks and entries than fit in a small table.
func manyPicks(c *Ctx) {
	sizes := []int{1025, 4097, 16385, 65535, 65536, 65537, 200000, c.quickOr(300000, 2000000)}
	c.Soft("many", fmt.Sprintf("%d..%d picks in one read, then a step back", sizes[0], sizes[len(sizes)-1]), len(sizes), 4, func(w *W, u int) {
		n := sizes[u]
		w.Case(func() string { return fmt.Sprintf("%d picks", n) }, func() {
			s := tok.NewScanner(strings.Repeat("a", n))
			b := s.NewBasket()
			err := s.Use(tok.Zom(tok.Pick(tok.Lit("a"), b, "a")))
			is := func(n int) {
				got := b.Picked()
				w.trans++
				if len(got) != n {
					w.Fail("%d picks, expected %d (%v)", len(got), n, err)
					return
				}
				for i, g := range got {
					if g.Info != "a" || g.Token != tk(i, i+1) {
						w.Fail("pick %d is %s", i, g)
						return
					}
				}
			}
			is(n)
			s.Move(-2)
			is(n - 2)
			s.Use(tok.Seq(tok.Pick(tok.Lit("a"), b, "b"), 'z'))
			is(n - 2)
			s.Use(tok.Pick(tok.Lit("a"), b, "a"))
			is(n - 1)
			s.ToMarker(7)
			is(7)
		})
	})
}

func manyEntries(c *Ctx) {
	sizes := []int{1025, 4097, 16385, 65535, 65536, 65537, 200000, c.quickOr(300000, 2000000)}
	c.Soft("many", fmt.Sprintf("logs of %d..%d entries in a row, inside of another one", sizes[0], sizes[len(sizes)-1]), len(sizes), 4, func(w *W, u int) {
		n := sizes[u]
		w.Case(func() string { return fmt.Sprintf("%d entries", n) }, func() {
			log := &tok.Log{}
			calls := 0
			r := tok.Monitor(tok.Zom(tok.Map(tok.Monitor(tok.Lit("a"), log, "in"), func(tok.Token) { calls++ })), log, "out")
			err := r.Read(tok.NewScanner(strings.Repeat("a", n)))
			w.trans++
			if len(log.Entries) != n+2 || err != nil || calls != n {
				w.Fail("%d entries and %d calls, expected %d (%v)", len(log.Entries), calls, n+2, err)
				return
			}
			for i, e := range log.Entries {
				x := tok.LogEntry{EnterAt: i - 1, Info: "in", Level: 2, ExitAt: i}
				if i == 0 {
					x = tok.LogEntry{Info: "out", Level: 1, ExitAt: n}
				}
				if i == n+1 {
					x.ExitAt = n
				}
				if e.EnterAt != x.EnterAt || e.Info != x.Info || e.Level != x.Level || e.ExitAt != x.ExitAt || (e.Error != nil) != (i == n+1) {
					w.Fail("entry %d is %+v, expected %+v", i, e, x)
					return
				}
			}
			log.Reset()
			if len(log.Entries) != 0 {
				w.Fail("%d entries after Reset", len(log.Entries))
			}
		})
	})
}

// strangePrint: entries with strange infos and previews of strange texts.
func strangePrint(c *Ctx) {
	c.phaseN("print-infos", fmt.Sprintf("%d infos (percent signs, line breaks, quotes, ...) in front of %d texts", len(strangeInfos), len(strangeInfos)), len(strangeInfos), 1, func(w *W, u int) {
		info := strangeInfos[u]
		for _, t := range strangeInfos {
			w.Case(func() string { return fmt.Sprintf("info %q, text %q", info, short(t)) }, func() {
				log := &tok.Log{}
				r := tok.Monitor(tok.Seq(tok.Monitor(tok.Lit(t), log, info), tok.Opt(tok.Monitor(tok.Lit(info+"x"), log, "")), tok.Opt(tok.Monitor(tok.Lit("y"), log, info))), log, info)
				r.Read(tok.NewScanner(t + "y"))
				if len(log.Entries) != 4 {
					w.Fail("%d entries", len(log.Entries))
					return
				}
				want, wantPre := "", ""
				for i, p := range []int{0, 0, len(t), len(t)} {
					x, lv := info, 2
					if i == 0 {
						lv = 1
					} else if i == 2 {
						x = ""
					}
					line := fmt.Sprint(lv) + strings.Repeat(".", lv) + "@ " + fmt.Sprint(p) + " " + x
					if e := log.Entries[i]; e.Info != x || e.String() != line {
						w.Fail("entry %d is %+v (%q), expected %q", i, e, e, line)
					}
					pre := runes((t + "y")[p:])
					if len(pre) > 3 {
						pre = pre[:3]
					}
					want += line + "\n"
					wantPre += fmt.Sprintf("%s > %q\n", line, strings.Join(pre, ""))
				}
				plain := strings.Join(capture(log.Print), "\n") + "\n"
				preview := strings.Join(capture(func() { log.PrintWithPreview(t+"y", 3) }), "\n") + "\n"
				w.trans += 2
				if plain != want || preview != wantPre {
					w.Fail("printed %q and %q, expected %q and %q", plain, preview, want, wantPre)
				}
			})
		}
	})
}

// ruleWraps decorates rules by all sequences of calls and reads with them.
func ruleWraps(c *Ctx, prop string) {
	names := append([]string{"r", "", "a b"}, strangeInfos...)
	ops := []string{"pick A", "pick B", "monitor K", "monitor L", "map", "rename", "pick A twice", "monitor K twice"}
	depth := c.quickOr(4, 5)
	list := [][]int{{}}
	for i, d := 0, 0; d < depth; d++ {
		for end := len(list); i < end; i++ {
			for k := range ops {
				list = append(list, append(list[i][:len(list[i]):len(list[i])], k))
			}
		}
	}
	c.Phase("rule-wraps", fmt.Sprintf("all sequences of up to %d of: %s of a rule (%d names for the short ones), then reads that succeed and fail, alone and twice in a row", depth, strings.Join(ops, ", "), len(names)), (len(list)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(list) && i < (u+1)*64; i++ {
			for ni, name := range names {
				if ni > 1 && len(list[i]) > 2 {
					break
				}
				w.Case(func() string {
					l := []string{}
					for _, k := range list[i] {
						l = append(l, ops[k])
					}
					return fmt.Sprintf("rule %q: %s", name, strings.Join(l, ", "))
				}, func() { wrapRule(w, prop, name, list[i]) })
			}
		}
	})
}

// wrapped is a wrapper around a rule, the later ones are outside of the earlier ones.
type wrapped struct {
	sort byte // A B: baskets, K L: logs, m: map
	name string
}

func wrapRule(w *W, prop, name string, calls []int) {
	for _, t := range []string{"xx", "y", "", "xy"} {
		for n := 1; n <= 2; n++ {
			r := &tok.Rule{Name: name, Reader: tok.Lit("x")}
			s := tok.NewScanner(t)
			b := &tok.Basket{}
			a := s.NewBasket()
			k, l := &tok.Log{}, &tok.Log{}
			maps := []string{}
			l1 := []wrapped{}
			cur := name
			for i, c := range calls {
				w.trans++
				switch c {
				case 0, 6:
					if r.Pick(a); c == 6 {
						a.PickWith(r)
						l1 = append(l1, wrapped{'A', cur})
					}
					l1 = append(l1, wrapped{'A', cur})
				case 1:
					b.PickWith(r)
					l1 = append(l1, wrapped{'B', cur})
				case 2, 7:
					if c == 7 {
						k.Monitor(r, r)
						l1 = append(l1, wrapped{'K', cur})
					} else {
						r.Monitor(k)
					}
					l1 = append(l1, wrapped{'K', cur})
				case 3:
					l.Monitor(r)
					l1 = append(l1, wrapped{'L', cur})
				case 4:
					i := i
					r.Map(func(t tok.Token) { maps = append(maps, fmt.Sprint(i, t)) })
					l1 = append(l1, wrapped{'m', fmt.Sprint(i)})
				case 5:
					cur = fmt.Sprintf("%s%d", name, i)
					r.Name = cur
				}
			}
			var reader tok.Reader = r
			if n == 2 {
				reader = tok.Seq(r, r)
			}
			err := s.Use(reader)
			w.trans++
			// the same by hand
			picks := map[byte][]string{}
			logs := map[byte][]string{}
			wantMaps := []string{}
			pos, ok := 0, true
			for j := 0; j < n && ok; j++ {
				ok = strings.HasPrefix(t[pos:], "x")
				to := pos
				if ok {
					to++
				}
				level := map[byte]int{}
				for i := len(l1) - 1; i >= 0; i-- {
					x := l1[i]
					level[x.sort]++
					logs[x.sort] = append(logs[x.sort], fmt.Sprintf("%d %s %d %d %v", pos, x.name, level[x.sort], to, ok))
				}
				for _, x := range l1 {
					if !ok {
						continue
					}
					if x.sort == 'm' {
						wantMaps = append(wantMaps, fmt.Sprintf("%s [%d-%d)", x.name, pos, to))
					}
					picks[x.sort] = append(picks[x.sort], fmt.Sprintf("%s[%d-%d)", x.name, pos, to))
				}
				pos = to
			}
			if !ok {
				picks['A'] = nil // this one belongs to the scanner
			}
			if prop == "C14" {
				if got := fmt.Sprint(a.Picked()); got != fmt.Sprint(picks['A']) {
					w.Fail("text %q, %d times: picked %s, expected %v", t, n, got, picks['A'])
				}
				if got := fmt.Sprint(b.Picked()); ok && got != fmt.Sprint(picks['B']) {
					w.Fail("text %q, %d times: picked into the other basket %s, expected %v", t, n, got, picks['B'])
				}
				continue
			}
			if (err == nil) != ok || ok && int(s.Mark()) != n || !ok && s.Mark() != 0 {
				w.Fail("text %q, %d times: %v at %d", t, n, err, s.Mark())
			}
			if fmt.Sprint(maps) != fmt.Sprint(wantMaps) {
				w.Fail("text %q, %d times: mapped %v, expected %v", t, n, maps, wantMaps)
			}
			for x, log := range map[byte]*tok.Log{'K': k, 'L': l} {
				got := []string{}
				for _, e := range log.Entries {
					got = append(got, fmt.Sprintf("%d %s %d %d %v", e.EnterAt, e.Info, e.Level, e.ExitAt, e.Error == nil))
				}
				if fmt.Sprint(got) != fmt.Sprint(append([]string{}, logs[x]...)) {
					w.Fail("text %q, %d times: log %c has %q, expected %q", t, n, x, got, logs[x])
				}
			}
		}
	}
}
