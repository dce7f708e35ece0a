package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

func init() {
	register("C09", "every reader expression of the spaces on every text; success and consumed text compared with the reference semantics", checkC09)
	register("C10", "every reader expression of the spaces with a probe at every node, and the built-in grammars; after every failed Read, at every level, the scanner is where that Read began", checkC10)
	register("C11", "every reader expression of the spaces on texts with invalid bytes and U+FFFD, and the built-in grammars on every text up to the bound and every truncation and one-byte change of documents; every read ends, does not panic and stays in the text", checkC11)
	register("C12", "every reader expression of the spaces on every text; kind, position and What of the error compared with the reference semantics", checkC12)
}

// limTracker stops reads that do not end.
type limTracker struct {
	n, max int
	size   int
	next   tok.Tracker
}

type noEnd struct{}

func (l *limTracker) Update(m tok.Marker) {
	l.n++
	if l.n > l.max {
		panic("the read does not end")
	}
	if int(m) < 0 || int(m) > l.size {
		panic(fmt.Sprintf("position %d outside of the text", m))
	}
	if l.next != nil {
		l.next.Update(m)
	}
}

// ---------------------------------------------------------------------- C09

type judgeResult struct {
	e  *ex
	r  tok.Reader
	in interp
}

func (j *judgeResult) begin(w *W, e *ex) {
	j.e = e
	b := &builder{w: w}
	j.r = b.build(e)
}

func (j *judgeResult) text(w *W, t string, p int) {
	w.trans++
	j.in = interp{t: t}
	want := j.in.eval(j.e, p, len(t))
	s := at(w, t, p)
	w.note = t
	err := j.r.Read(s)
	got := int(s.Mark())
	if (err == nil) != want.ok || want.ok && got != want.pos {
		w.Fail("at %d: error %v, at %d; expected ok=%v at %d", p, err, got, want.ok, want.pos)
		return
	}
	if err == nil {
		// the same through Use, from the same reader
		s := at(w, t, p)
		if err := s.Use(j.r); err != nil || int(s.Mark()) != want.pos {
			w.Fail("at %d: a second read differs: error %v, at %d; expected %d", p, err, s.Mark(), want.pos)
		}
	}
}

func (j *judgeResult) end(w *W) {}

func checkC09(c *Ctx) {
	longTexts(c, longReads())
	runCounts(c)
	explore(c, exprSpaces(c), func() judge { return &judgeResult{} })
	interchange(c)
	readChoices(c)
	leaves := cat(richLeaves(), []*ex{eUn(kNot, eLit("a")), eUn(kTo, eLit("a")), eUn(kPast, eRune('ä')), eUn(kZom, eBetween('a', 'z')), eUn(kMany, eAnyRune("aä")), eUn(kZom, eHoley('a', '€', "b")),
		eBin(kBody, eUn(kZom, eBetween('a', 'z')), eLit("a")), eBin(kBodyTail, eUn(kZom, eBetween(0, utf8.MaxRune)), eLit("a")), eSeq(eLit("a"), eUn(kNot, eAnyRune("b0"))), eSkipWS(eLit("a"), eLit("b"))})
	const part = 0x1000
	n := int(utf8.MaxRune+1) / part
	c.Phase("strangers", fmt.Sprintf("every code point in 1 (below U+3100 and thorough: 4) texts with %d leaves and small expressions", len(leaves)), n*len(leaves), func(w *W, u int) {
		e, from := leaves[u/n], rune(u%n*part)
		w.Case(func() string { return fmt.Sprintf("%s, runes from %U", e, from) }, func() {
			j := &judgeResult{}
			j.begin(w, e)
			for r := from; r < from+part && !w.failed; r++ {
				v := string(r)
				j.text(w, v+"a", 0)
				w.states++
				if c.thorough || plainOrCut(r) {
					j.text(w, v, 0)
					j.text(w, "a"+v+"b", 0)
					j.text(w, "ab"+v, 1)
					w.states += 3
				}
			}
		})
	})
	sharedLists(c)
	rangeLists(c)
}

// rangeLists: every list of ranges over few bounds.
func rangeLists(c *Ctx) {
	bounds := "abcd"
	ranges := [][2]rune{}
	for _, x := range bounds {
		for _, y := range bounds {
			ranges = append(ranges, [2]rune{x, y})
		}
	}
	n := len(ranges)
	units := 1
	for i := 0; i < 4; i++ {
		units *= n + 1
	}
	const part = 64
	c.Phase("range-lists", "BetweenAny, BuildBetweenAny and Set with every list of up to 4 of the 16 ranges over {a b c d}, on 7 texts", (units+part-1)/part, func(w *W, u int) {
		for v := u * part; v < (u+1)*part && v < units; v++ {
			list := [][2]rune{}
			for i, k := 0, v; i < 4; i++ {
				if k%(n+1) != n {
					list = append(list, ranges[k%(n+1)])
				}
				k /= n + 1
			}
			str, flat := "", []rune{}
			for _, r := range list {
				str += string(r[0]) + "-" + string(r[1])
				flat = append(flat, r[0], r[1])
			}
			w.Case(func() string { return fmt.Sprintf("ranges %q", str) }, func() {
				w.states++
				for _, rd := range []struct {
					r       tok.Reader
					singles string
				}{{tok.BetweenAny(str), ""}, {tok.BuildBetweenAny(flat...), ""}, {tok.Set(str, ""), ""}, {tok.Set(str, "e"), "e"}, {tok.Set(str, "xb"), "xb"}} {
					for _, t := range []string{"", "a", "b", "c", "d", "e", "ää"} {
						want := false
						for _, x := range t {
							want = strings.ContainsRune(rd.singles, x)
							for _, r := range list {
								want = want || r[0] <= x && x <= r[1]
							}
							break
						}
						s := tok.NewScanner(t)
						err := rd.r.Read(s)
						w.trans++
						if (err == nil) != want || want && s.Mark() != 1 || !want && s.Mark() != 0 {
							w.Fail("%s on %q: %v at %d, expected ok=%v", rd.r.What(), t, err, s.Mark(), want)
						}
					}
				}
			})
		}
	})
}

// interchange: rune, string and reader arguments have the same meaning.
func interchange(c *Ctx) {
	type cons struct {
		name string
		f    func(x interface{}) tok.Reader
	}
	cs := []cons{
		{"Any", func(x interface{}) tok.Reader { return tok.Any(x) }},
		{"Any2", func(x interface{}) tok.Reader { return tok.Any("zz", x) }},
		{"Seq", func(x interface{}) tok.Reader { return tok.Seq(x) }},
		{"Seq2", func(x interface{}) tok.Reader { return tok.Seq(x, x) }},
		{"Opt", func(x interface{}) tok.Reader { return tok.Opt(x) }},
		{"Zom", func(x interface{}) tok.Reader { return tok.Zom(x) }},
		{"Many", func(x interface{}) tok.Reader { return tok.Many(x) }},
		{"To", func(x interface{}) tok.Reader { return tok.To(x) }},
		{"Past", func(x interface{}) tok.Reader { return tok.Past(x) }},
		{"SkipSeq", func(x interface{}) tok.Reader { return tok.SkipSeq(tok.Zom(' '), x, x) }},
		{"SkipWSSeq", func(x interface{}) tok.Reader { return tok.SkipWSSeq(x, x) }},
	}
	args := []struct{ a, b interface{} }{{'a', tok.Rune('a')}, {"ab", tok.Lit("ab")}, {'ä', tok.Rune('ä')}, {"", tok.Lit("")}, {"ä", tok.Lit("ä")}, {'\uFFFD', tok.Rune('\uFFFD')}, {"a", tok.Rune('a')}, {'b', tok.Lit("b")}}
	list := texts([]string{"a", "b", "ä", " ", "\xff"}, c.quickOr(4, 6))
	c.Phase("arguments", "11 constructors with runes, strings and readers, texts of up to 4 of 5 symbols", len(cs)*len(args), func(w *W, u int) {
		x, ar := cs[u/len(args)], args[u%len(args)]
		w.Case(func() string { return fmt.Sprintf("%s(%v)", x.name, ar.a) }, func() {
			r1, r2 := x.f(ar.a), x.f(ar.b)
			for _, t := range list {
				w.trans++
				s1, s2 := tok.NewScanner(t), tok.NewScanner(t)
				e1, e2 := r1.Read(s1), r2.Read(s2)
				if (e1 == nil) != (e2 == nil) || s1.Mark() != s2.Mark() {
					w.Fail("%q: %v at %d, with a reader %v at %d", t, e1, s1.Mark(), e2, s2.Mark())
				}
			}
		})
	})
}

// ---------------------------------------------------------------------- C10

type judgeRestore struct {
	e    *ex
	r    tok.Reader
	w    *W
	last string
}

func (j *judgeRestore) begin(w *W, e *ex) {
	j.e = decorate(e, func(n *ex) *ex { return eProbe(n) })
	j.w = w
	b := &builder{w: w}
	b.onProbe = func(n *ex, from, to int, err error) {
		w.trans++
		if err != nil && from != to {
			w.Fail("%s fails and moves from %d to %d", n.sub[0], from, to)
		}
	}
	j.r = b.build(j.e)
}

func (j *judgeRestore) text(w *W, t string, p int) {
	s := at(w, t, p)
	w.note = t
	err := j.r.Read(s)
	if err != nil && int(s.Mark()) != p {
		w.Fail("read at %d failed at %d", p, s.Mark())
	}
}

func (j *judgeRestore) end(w *W) {}

func checkC10(c *Ctx) {
	explore(c, exprSpaces(c), func() judge { return &judgeRestore{} })
	// the undecorated readers
	explore(c, renamed(exprSpaces(c)[:4], "plain-"), func() judge { return &judgePlain{} })
	janusExprs(c, "janus-", func() judge { return &judgeRestore{} })
	for i := range grams() {
		grammarPlaces(c, i, false)
	}
	grammarTexts(c, "", func(w *W, g *gram, r inst, t string) {
		s := tok.NewScanner(t)
		s.Tracker = &limTracker{max: 50000000, size: len(t)}
		for i, rd := range r.readers {
			w.trans++
			w.note = fmt.Sprintf("%s %s", g.name, r.names[i])
			s.ToStart()
			if err := rd.Read(s); err != nil && !s.AtStart() {
				w.Fail("failed at %d", s.Mark())
			}
		}
	})
}

type judgePlain struct{ r tok.Reader }

func (j *judgePlain) begin(w *W, e *ex) { j.r = (&builder{w: w}).build(e) }
func (j *judgePlain) text(w *W, t string, p int) {
	s := at(w, t, p)
	w.note = t
	w.trans++
	if err := j.r.Read(s); err != nil && int(s.Mark()) != p {
		w.Fail("read at %d failed at %d", p, s.Mark())
	}
}
func (j *judgePlain) end(w *W) {}

func renamed(sp []space, prefix string) []space {
	res := []space{}
	for _, s := range sp {
		s.name = prefix + s.name
		res = append(res, s)
	}
	return res
}

// ---------------------------------------------------------------------- C11

type judgeEnds struct {
	r   tok.Reader
	max int
}

func (j *judgeEnds) begin(w *W, e *ex) {
	j.r = (&builder{w: w}).build(e)
}

func (j *judgeEnds) text(w *W, t string, p int) {
	w.trans++
	s := at(w, t, p)
	s.Tracker = &limTracker{max: 20000000, size: len(t)}
	w.note = t
	j.r.Read(s)
	if m := int(s.Mark()); m < 0 || m > len(t) {
		w.Fail("ends at %d", m)
	}
}

func (j *judgeEnds) end(w *W) {}

func checkC11(c *Ctx) {
	bad := uniq(append(texts([]string{"a", "\xff", "\uFFFD", "\xc3"}, c.quickOr(3, 4)), "b", "ab", "ä", "abab", "aaaa"))
	sp := []space{}
	for _, s := range exprSpaces(c) {
		if !strings.HasPrefix(s.name, "sizes") {
			if s.n > 100000 && !c.thorough {
				s.texts = []string{"", "a", "b", "ab", "ba", "\xff", "a\xff", "\xffa", "\uFFFDa", "\xc3a", "abab", "aaa"}
			} else {
				s.texts = bad
			}
			s.bound += ", texts with invalid bytes"
		}
		sp = append(sp, s)
	}
	explore(c, sp, func() judge { return &judgeEnds{} })
	// nested repetitions of readers that match the empty string
	empties := []*ex{eLit(""), eUn(kOpt, eLit("a")), eUn(kAt, eLit("a")), eAtEnd(), eTimes(0, eLit("a")), eUn(kTo, eLit("a")), eUn(kTo, eAtEnd()), eSeq(), eUn(kZom, eLit("")), eFold(""), eBin(kBody, eLit(""), eLit("")), eBin(kBodyTail, eLit(""), eAtEnd()), eJEnd("j"), eSkipWS(), eAny(eLit(""), eLit("a")), eWrap("")}
	rep := []func(*ex) *ex{func(e *ex) *ex { return eUn(kZom, e) }, func(e *ex) *ex { return eUn(kMany, e) }, func(e *ex) *ex { return eSkipSeq(eUn(kZom, e), e) }, func(e *ex) *ex { return eTimes(3, e) }, func(e *ex) *ex { return eUn(kPast, e) }, func(e *ex) *ex { return eSeq(e, eUn(kZom, eLit("a"))) }, func(e *ex) *ex { return eAny(eSeq(e, eLit("b")), e) }, func(e *ex) *ex { return eUn(kNot, e) }}
	list := []*ex{}
	for _, e := range empties {
		for _, f := range rep {
			for _, g := range rep {
				for _, h := range rep {
					list = append(list, h(g(f(e))))
				}
			}
		}
	}
	explore(c, []space{listSpace("empty-repetitions", "three repetition operators over 16 readers that can match the empty string", list, bad, false)}, func() judge { return &judgeEnds{} })
	grammarTexts(c, "", func(w *W, g *gram, r inst, t string) {
		for i, rd := range r.readers {
			s := tok.NewScanner(t)
			s.Tracker = &limTracker{max: 50000000, size: len(t)}
			w.trans++
			w.note = fmt.Sprintf("%s %s", g.name, r.names[i])
			rd.Read(s)
			if m := int(s.Mark()); m < 0 || m > len(t) {
				w.Fail("ends at %d", m)
			}
		}
	})
	grammarBytes(c)
	growth(c)
	deepNesting(c)
	longTexts(c, longReads())
}

// growth: nesting does not multiply the steps of a read.
func growth(c *Ctx) {
	type family struct {
		g            int
		open, mid    string
		close, wrong string
	}
	fams := []family{
		{0, "[", "", "]", "}"}, {0, "[", "1", "]", ","}, {0, "[1,", "2", "]", "x"}, {0, "[[],", "", "]", "\xff"}, {0, `{"a":`, "1", "}", "]"}, {0, `{"a":`, "", "}", ":"}, {0, `{"a":1,"b":`, "{}", "}", `"`},
		{0, `[{"k":`, "null", "}]", "]}"}, {0, " [ ", " 0 ", " ] ", " "}, {0, `[{"a":[`, `"x"`, "]}]", "\\"}, {0, `[1,{"a":"b"},`, "-1.5e3", "]", "-"}, {0, "[\n", "\t", "\r]", "\x00"}, {0, "[[", "", "],[]]", "],"}, {0, "1", "2", "3", "."}, {0, `"a\\n`, "b", `"`, "\n"},
		{1, "// a -->\n", "x", "\n", "//"}, {1, "// a ", "-->", " -->", ">"}, {1, "//", " a -->\nx", "\n//", "-"}, {1, "// a --> S\n// b\n", "//S c -->", "\n//S", "\n"}, {1, "// a -", "->", "--", " "}, {1, "// a -->\r\n//", "", "\r\n", "\r"}, {1, "// a b c -->\n\n", "\n", "// x", "/"},
		{2, "do ", "x=1 ", "end ", "until "}, {2, "while x do ", "", "end ", ")"}, {2, "repeat ", "local a ", "until x ", "end "}, {2, "if x then ", "", "end ", "else else "}, {2, "if x then elseif y then ", "", "else end ", "else "}, {2, "for i=1,2 do ", "", "end ", "do "}, {2, "for k,v in x do ", "", "end ", "in "}, {2, "function f() ", "return ", "end ", "("}, {2, "local function f(a,...) ", "", "end ", "end end "},
		{2, "x=function() ", "", "end ", "}"}, {2, "return function() ", "", "end ", ","}, {2, "--[[", "x", "]]", "--"}, {2, "::a:: ", "goto a ", ";", ":"},
	}
	gs := grams()
	max := c.quickOr(48, 160)
	c.Phase("growth", fmt.Sprintf("%d families of texts with 1..%d nested or repeated parts, complete, not closed and wrongly closed: at most 2000+200*n*n movements for n bytes (Lua: 50000000)", len(fams), max), len(fams), func(w *W, u int) {
		f := fams[u]
		r := gs[f.g].fresh()
		for k := 1; k <= max; k++ {
			o, cl := strings.Repeat(f.open, k), strings.Repeat(f.close, k)
			half := strings.Repeat(f.close, k/2)
			for _, t := range []string{o, o + f.mid, o + f.mid + cl, o + f.mid + half, o + f.mid + half + f.wrong, o + f.mid + half + f.wrong + half, o + f.wrong + cl, o + f.mid + cl + f.wrong, o + f.mid + cl + o} {
				w.Case(func() string { return fmt.Sprintf("%s text of %d times %q: %q", gs[f.g].name, k, f.open, short(t)) }, func() {
					s := tok.NewScanner(t)
					most := 2000 + 200*len(t)*len(t)
					if f.g == 2 {
						most = 50000000
					}
					s.Tracker = &limTracker{max: most, size: len(t)}
					w.trans++
					r.g.Read(s)
				})
				if w.failed {
					return
				}
			}
		}
	})
}

func short(t string) string {
	if len(t) > 200 {
		return t[:100] + "..." + t[len(t)-100:]
	}
	return t
}

// ---------------------------------------------------------------------- C12

type judgeError struct {
	judgeResult
}

func (j *judgeError) text(w *W, t string, p int) {
	w.trans++
	j.in = interp{t: t}
	want := j.in.eval(j.e, p, len(t))
	s := at(w, t, p)
	w.note = t
	compareError(w, j.r.Read(s), want, t, p)
}

func compareError(w *W, err error, want mr, t string, p int) {
	if (err == nil) != want.ok {
		w.Fail("at %d: error %v, expected ok=%v", p, err, want.ok)
		return
	}
	if err == nil {
		return
	}
	re, ok := err.(tok.ReadError)
	if ok != (want.kind == errRead) {
		w.Fail("at %d: error %T %v, expected a ReadError: %v", p, err, err, want.kind == errRead)
		return
	}
	if !ok {
		if err.Error() == "" {
			w.Fail("at %d: empty error", p)
		}
		return
	}
	if int(re.Marker) != want.em {
		w.Fail("at %d: error %q, expected at %d (%s)", p, err, want.em, want.ew)
		return
	}
	if int(re.Marker) < 0 || int(re.Marker) > len(t) {
		w.Fail("at %d: error %q lies outside of the text", p, err)
	}
	if re.What != want.ew && (want.ew2 == "" || re.What != want.ew2) {
		w.Fail("at %d: error for %q, expected %q", p, re.What, want.ew)
		return
	}
	msg := err.Error()
	if !strings.Contains(msg, re.What) || !strings.Contains(msg, fmt.Sprint(int(re.Marker))) {
		w.Fail("the message %q does not name what and where", msg)
	}
}

func checkC12(c *Ctx) {
	sp := exprSpaces(c)
	explore(c, sp, func() judge { return &judgeError{} })
	// the scanner read functions
	overList(c, "read-functions", "ReadBool, ReadInt, ReadUint, ReadRune, RevReadRune on texts of up to 3 of 13 symbols, every position", texts(richTexts, 3), 64, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for p := 0; p <= len(t); p++ {
				for i := 0; i < 10; i++ {
					s := at(w, t, p)
					var err error
					switch i {
					case 0:
						_, err = s.ReadBool("")
					case 1:
						_, err = s.ReadInt(10, 8)
					case 2:
						_, err = s.ReadUint(10, 8)
					case 3:
						_, err = s.ReadRune()
					case 4:
						_, err = s.RevReadRune()
					case 5:
						_, err = s.ReadBool("l")
					case 6:
						_, err = s.ReadBool("U")
					case 7:
						_, err = s.ReadBool("Cc")
					case 8:
						_, err = s.ReadInt(16, 64)
					case 9:
						_, err = s.ReadUint(8, 32)
					}
					w.trans++
					if err == nil {
						continue
					}
					re, ok := err.(tok.ReadError)
					if !ok || int(re.Marker) != p || re.What != []string{"bool", "integer", "unsigned integer", "rune", "rune", "bool", "bool", "bool", "integer", "unsigned integer"}[i] {
						w.Fail("function %d at %d: error %v", i, p, err)
					}
				}
			}
		})
	})
	// Later, ErrorFor, ErrorIfFalse
	c.Phase("errors", "all pairs of positions up to 200, names, texts", 200, func(w *W, a int) {
		w.Case(func() string { return fmt.Sprintf("errors at %d", a) }, func() {
			t := strings.Repeat("x", 200)
			s := at(w, t, a)
			for _, name := range []string{"", "x", "a b", "%d", "%s%v", "ä", "\""} {
				err := s.ErrorFor(name)
				re, ok := err.(tok.ReadError)
				if !ok || int(re.Marker) != a || re.What != name {
					w.Fail("ErrorFor(%q) is %v", name, err)
				}
				if s.ErrorIfFalse(true, name) != nil || s.ErrorIfFalse(false, name) != err {
					w.Fail("ErrorIfFalse(%q)", name)
				}
				if !strings.Contains(err.Error(), name) || !strings.Contains(err.Error(), fmt.Sprint(a)) {
					w.Fail("message %q for %q at %d", err.Error(), name, a)
				}
				w.trans += 3
				for b := 0; b < 200; b++ {
					x, y := tok.ReadError{Marker: tok.Marker(a), What: name}, tok.ReadError{Marker: tok.Marker(b), What: "y"}
					w.trans++
					if a != b && x.Later(y) != (a > b) {
						w.Fail("%d Later %d is %v", a, b, x.Later(y))
					}
				}
			}
		})
	})
	// readers whose parts are changed between reads
	olds, news := changed(c)
	c.Phase("late", "rules renamed and fields of value readers set after texts were read, inside of every combination of two combinators and wrappers (thorough: three): the errors of later reads", (len(olds)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(olds) && i < (u+1)*64; i++ {
			e, e2 := olds[i], news[i]
			w.Case(func() string { return e.String() + " changed to " + e2.String() }, func() {
				b := &builder{w: w, log: &tok.Log{}}
				b.basket = tok.NewScanner("").NewBasket()
				r := b.build(e)
				list := []string{"", "a", "b", "ab", "1", "true", "TRUE", "ab a", "q"}
				for _, x := range []*ex{e, e2} {
					for _, t := range list {
						w.trans++
						in := interp{t: t}
						want := in.eval(x, 0, len(t))
						compareError(w, r.Read(tok.NewScanner(t)), want, t, 0)
					}
					b.change()
				}
			})
		}
	})
}
