package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// Reference model of the scanner operations. The state is (text, pos); the
// model is written from the documentation on byte offsets and does not share
// code with the library.

type sres struct {
	pos  int
	ok   bool
	skip bool // the documentation does not decide this case
}

type op struct {
	name  string
	do    func(s *tok.Scanner) bool
	model func(t string, p int) sres
	known func(t string, p int, want sres, gotPos int, gotOK bool) string
}

// ------------------------------------------------------------ building blocks

func stay(p int) sres      { return sres{p, false, false} }
func moved(p int) sres     { return sres{p, true, false} }
func undecided(p int) sres { return sres{p, false, true} }

// foldKey maps a rune to the smallest rune of its folding orbit.
func foldKey(r rune) rune {
	min := r
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		if f < min {
			min = f
		}
	}
	return min
}

func foldKeys(s string) []rune {
	res := []rune{}
	for _, r := range s {
		res = append(res, foldKey(r))
	}
	return res
}

// foldAt: does t at p begin with sub under case folding, rune by rune?
func foldAt(t string, p int, keys []rune) (int, bool) {
	for _, k := range keys {
		if p >= len(t) {
			return 0, false
		}
		r, n := utf8.DecodeRuneInString(t[p:])
		if foldKey(r) != k {
			return 0, false
		}
		p += n
	}
	return p, true
}

// foldBefore: does t[:p] end with sub under case folding, rune by rune?
func foldBefore(t string, p int, keys []rune) (int, bool) {
	for i := len(keys) - 1; i >= 0; i-- {
		if p == 0 {
			return 0, false
		}
		r, n := utf8.DecodeLastRuneInString(t[:p])
		if foldKey(r) != keys[i] {
			return 0, false
		}
		p -= n
	}
	return p, true
}

func has(t string, p int, sub string) bool {
	return p+len(sub) <= len(t) && t[p:p+len(sub)] == sub
}

type pred func(r rune) bool

func ifPred(t string, p int, f pred) sres {
	if p == len(t) {
		return stay(p)
	}
	r, n := utf8.DecodeRuneInString(t[p:])
	if !f(r) {
		return stay(p)
	}
	return moved(p + n)
}

func toPred(t string, p int, f pred) sres {
	for i := p; i < len(t); {
		r, n := utf8.DecodeRuneInString(t[i:])
		if f(r) {
			return moved(i)
		}
		i += n
	}
	return stay(p)
}

func whilePred(t string, p int, f pred) sres {
	i := p
	for i < len(t) {
		r, n := utf8.DecodeRuneInString(t[i:])
		if !f(r) {
			break
		}
		i += n
	}
	return sres{i, i != p, false}
}

func revIfPred(t string, p int, f pred) sres {
	if p == 0 {
		return stay(p)
	}
	r, n := utf8.DecodeLastRuneInString(t[:p])
	if !f(r) {
		return stay(p)
	}
	return moved(p - n)
}

func revToPred(t string, p int, f pred) sres {
	for i := p; i > 0; {
		r, n := utf8.DecodeLastRuneInString(t[:i])
		if f(r) {
			return moved(i)
		}
		i -= n
	}
	return stay(p)
}

func revWhilePred(t string, p int, f pred) sres {
	i := p
	for i > 0 {
		r, n := utf8.DecodeLastRuneInString(t[:i])
		if !f(r) {
			break
		}
		i -= n
	}
	return sres{i, i != p, false}
}

func inSet(set string) pred {
	return func(r rune) bool {
		for _, x := range set {
			if x == r {
				return true
			}
		}
		return false
	}
}

func between(min, max rune) pred { return func(r rune) bool { return min <= r && r <= max } }
func isRune(x rune) pred         { return func(r rune) bool { return r == x } }

// ------------------------------------------------------------------ forward

func opIf(str string) op {
	return op{name: fmt.Sprintf("If(%q)", str),
		do: func(s *tok.Scanner) bool { return s.If(str) },
		model: func(t string, p int) sres {
			if has(t, p, str) {
				return moved(p + len(str))
			}
			return stay(p)
		}}
}

func opIfAny(strs ...string) op {
	mine := append([]string{}, strs...)
	return op{name: fmt.Sprintf("IfAny(%s)", qs(strs)),
		do: func(s *tok.Scanner) bool { return s.IfAny(strs...) },
		model: func(t string, p int) sres {
			for _, str := range mine {
				if has(t, p, str) {
					return moved(p + len(str))
				}
			}
			return stay(p)
		}}
}

func opIfFold(str string) op {
	keys := foldKeys(str)
	return op{name: fmt.Sprintf("IfFold(%q)", str),
		do: func(s *tok.Scanner) bool { return s.IfFold(str) },
		model: func(t string, p int) sres {
			if e, ok := foldAt(t, p, keys); ok {
				return moved(e)
			}
			return stay(p)
		}}
}

func opTo(str string) op {
	valid := utf8.ValidString(str)
	return op{name: fmt.Sprintf("To(%q)", str),
		do: func(s *tok.Scanner) bool { return s.To(str) },
		model: func(t string, p int) sres {
			byByte := stay(p)
			for i := p; i <= len(t); i++ {
				if has(t, i, str) {
					byByte = moved(i)
					break
				}
			}
			if !valid {
				// a part of a rune: only decided if it is also the answer rune by rune
				byRune := stay(p)
				for i := p; i < len(t); {
					if has(t, i, str) {
						byRune = moved(i)
						break
					}
					_, n := utf8.DecodeRuneInString(t[i:])
					i += n
				}
				if byRune != byByte {
					return undecided(p)
				}
			}
			return byByte
		}}
}

func opToFold(str string) op {
	keys := foldKeys(str)
	return op{name: fmt.Sprintf("ToFold(%q)", str),
		do: func(s *tok.Scanner) bool { return s.ToFold(str) },
		model: func(t string, p int) sres {
			for i := p; ; {
				if _, ok := foldAt(t, i, keys); ok {
					return moved(i)
				}
				if i >= len(t) {
					return stay(p)
				}
				_, n := utf8.DecodeRuneInString(t[i:])
				i += n
			}
		}}
}

func predOps(kind string, name string, f pred, doIf, doTo, doWhile func(s *tok.Scanner) bool) map[string]op {
	return map[string]op{
		"If":    {name: "If" + kind + name, do: doIf, model: func(t string, p int) sres { return ifPred(t, p, f) }},
		"To":    {name: "To" + kind + name, do: doTo, model: func(t string, p int) sres { return toPred(t, p, f) }},
		"While": {name: "While" + kind + name, do: doWhile, model: func(t string, p int) sres { return whilePred(t, p, f) }},
	}
}

func revPredOps(kind string, name string, f pred, doIf, doTo, doWhile func(s *tok.Scanner) bool) map[string]op {
	return map[string]op{
		"If":    {name: "RevIf" + kind + name, do: doIf, model: func(t string, p int) sres { return revIfPred(t, p, f) }},
		"To":    {name: "RevTo" + kind + name, do: doTo, model: func(t string, p int) sres { return revToPred(t, p, f) }},
		"While": {name: "RevWhile" + kind + name, do: doWhile, model: func(t string, p int) sres { return revWhilePred(t, p, f) }},
	}
}

func runeOps(r rune) map[string]op {
	return predOps("Rune", fmt.Sprintf("(%U)", r), isRune(r),
		func(s *tok.Scanner) bool { return s.IfRune(r) },
		func(s *tok.Scanner) bool { return s.ToRune(r) },
		func(s *tok.Scanner) bool { return s.WhileRune(r) })
}

const knownWhileAny = "whileanyrune-end"

func anyRuneOps(set string) map[string]op {
	m := predOps("AnyRune", fmt.Sprintf("(%q)", set), inSet(set),
		func(s *tok.Scanner) bool { return s.IfAnyRune(set) },
		func(s *tok.Scanner) bool { return s.ToAnyRune(set) },
		func(s *tok.Scanner) bool { return s.WhileAnyRune(set) })
	wh := m["While"]
	wh.known = func(t string, p int, want sres, gotPos int, gotOK bool) string {
		// the run reaches the end of the text: true, but the scanner stays
		if want.ok && want.pos == len(t) && gotOK && gotPos == p {
			return knownWhileAny
		}
		return ""
	}
	m["While"] = wh
	return m
}

func betweenOps(min, max rune) map[string]op {
	return predOps("Between", fmt.Sprintf("(%U,%U)", min, max), between(min, max),
		func(s *tok.Scanner) bool { return s.IfBetween(min, max) },
		func(s *tok.Scanner) bool { return s.ToBetween(min, max) },
		func(s *tok.Scanner) bool { return s.WhileBetween(min, max) })
}

func matchOps(name string, f pred) map[string]op {
	mf := tok.MatchFunc(f)
	return predOps("Match", "("+name+")", f,
		func(s *tok.Scanner) bool { return s.IfMatch(mf) },
		func(s *tok.Scanner) bool { return s.ToMatch(mf) },
		func(s *tok.Scanner) bool { return s.WhileMatch(mf) })
}

// ------------------------------------------------------------------ backward

func opRevIf(str string) op {
	return op{name: fmt.Sprintf("RevIf(%q)", str),
		do: func(s *tok.Scanner) bool { return s.RevIf(str) },
		model: func(t string, p int) sres {
			if p >= len(str) && has(t, p-len(str), str) {
				return moved(p - len(str))
			}
			return stay(p)
		}}
}

func opRevIfAny(strs ...string) op {
	mine := append([]string{}, strs...)
	return op{name: fmt.Sprintf("RevIfAny(%s)", qs(strs)),
		do: func(s *tok.Scanner) bool { return s.RevIfAny(strs) },
		model: func(t string, p int) sres {
			for _, str := range mine {
				if p >= len(str) && has(t, p-len(str), str) {
					return moved(p - len(str))
				}
			}
			return stay(p)
		}}
}

func opRevIfFold(str string) op {
	keys := foldKeys(str)
	return op{name: fmt.Sprintf("RevIfFold(%q)", str),
		do: func(s *tok.Scanner) bool { return s.RevIfFold(str) },
		model: func(t string, p int) sres {
			if e, ok := foldBefore(t, p, keys); ok {
				return moved(e)
			}
			return stay(p)
		}}
}

func opRevTo(str string) op {
	valid := utf8.ValidString(str)
	return op{name: fmt.Sprintf("RevTo(%q)", str),
		do: func(s *tok.Scanner) bool { return s.RevTo(str) },
		model: func(t string, p int) sres {
			byByte := stay(p)
			for i := p; i >= len(str); i-- {
				if has(t, i-len(str), str) {
					byByte = moved(i)
					break
				}
			}
			if !valid {
				byRune := stay(p)
				for i := p; i > 0; {
					if i >= len(str) && has(t, i-len(str), str) {
						byRune = moved(i)
						break
					}
					_, n := utf8.DecodeLastRuneInString(t[:i])
					i -= n
				}
				if byRune != byByte {
					return undecided(p)
				}
			}
			return byByte
		}}
}

func opRevToFold(str string) op {
	keys := foldKeys(str)
	return op{name: fmt.Sprintf("RevToFold(%q)", str),
		do: func(s *tok.Scanner) bool { return s.RevToFold(str) },
		model: func(t string, p int) sres {
			for i := p; ; {
				if _, ok := foldBefore(t, i, keys); ok {
					return moved(i)
				}
				if i == 0 {
					return stay(p)
				}
				_, n := utf8.DecodeLastRuneInString(t[:i])
				i -= n
			}
		}}
}

func revRuneOps(r rune) map[string]op {
	return revPredOps("Rune", fmt.Sprintf("(%U)", r), isRune(r),
		func(s *tok.Scanner) bool { return s.RevIfRune(r) },
		func(s *tok.Scanner) bool { return s.RevToRune(r) },
		func(s *tok.Scanner) bool { return s.RevWhileRune(r) })
}

func revAnyRuneOps(set string) map[string]op {
	return revPredOps("AnyRune", fmt.Sprintf("(%q)", set), inSet(set),
		func(s *tok.Scanner) bool { return s.RevIfAnyRune(set) },
		func(s *tok.Scanner) bool { return s.RevToAnyRune(set) },
		func(s *tok.Scanner) bool { return s.RevWhileAnyRune(set) })
}

func revBetweenOps(min, max rune) map[string]op {
	return revPredOps("Between", fmt.Sprintf("(%U,%U)", min, max), between(min, max),
		func(s *tok.Scanner) bool { return s.RevIfBetween(min, max) },
		func(s *tok.Scanner) bool { return s.RevToBetween(min, max) },
		func(s *tok.Scanner) bool { return s.RevWhileBetween(min, max) })
}

func revMatchOps(name string, f pred) map[string]op {
	mf := tok.MatchFunc(f)
	return revPredOps("Match", "("+name+")", f,
		func(s *tok.Scanner) bool { return s.RevIfMatch(mf) },
		func(s *tok.Scanner) bool { return s.RevToMatch(mf) },
		func(s *tok.Scanner) bool { return s.RevWhileMatch(mf) })
}

// RevReadRune as operation: moves over the encoded rune before the position.
func opRevReadRune() op {
	return op{name: "RevReadRune()",
		do: func(s *tok.Scanner) bool {
			_, err := s.RevReadRune()
			return err == nil
		},
		model: func(t string, p int) sres {
			r, n := utf8.DecodeLastRuneInString(t[:p])
			if r == utf8.RuneError && n <= 1 {
				return stay(p)
			}
			return moved(p - n)
		}}
}

// --------------------------------------------------------------------- moves

func opMove(n int) op {
	return op{name: fmt.Sprintf("Move(%d)", n),
		do: func(s *tok.Scanner) bool { return s.Move(n) },
		model: func(t string, p int) sres {
			if n > len(t)-p || n < -p {
				return stay(p)
			}
			return moved(p + n)
		}}
}

func opMoveRunes(n int) op {
	return op{name: fmt.Sprintf("MoveRunes(%d)", n),
		do: func(s *tok.Scanner) bool { return s.MoveRunes(n) },
		model: func(t string, p int) sres {
			i := p
			for k := 0; k < n; k++ {
				if i == len(t) {
					return stay(p)
				}
				_, d := utf8.DecodeRuneInString(t[i:])
				i += d
			}
			for k := 0; k > n; k-- {
				if i == 0 {
					return stay(p)
				}
				_, d := utf8.DecodeLastRuneInString(t[:i])
				i -= d
			}
			return moved(i)
		}}
}

func opToMarker(m int) op {
	return op{name: fmt.Sprintf("ToMarker(%d)", m),
		do: func(s *tok.Scanner) bool { return s.ToMarker(tok.Marker(m)) },
		model: func(t string, p int) sres {
			if m < 0 || m > len(t) {
				return stay(p)
			}
			return moved(m)
		}}
}

func opToEnd() op {
	return op{name: "ToEnd()",
		do:    func(s *tok.Scanner) bool { return s.ToEnd() },
		model: func(t string, p int) sres { return moved(len(t)) }}
}

func opToStart() op {
	return op{name: "ToStart()",
		do:    func(s *tok.Scanner) bool { return s.ToStart() },
		model: func(t string, p int) sres { return moved(0) }}
}

// ------------------------------------------------------------- argument sets

var textSymbols = []string{"a", "b", "ä", "Ä", "€", "😀", "\uFFFD", "\xff", "\xc3", "\xa4", "k", "K", "\u212A", "s", "ſ"}

var strArgs = []string{"", "a", "b", "ab", "ba", "aa", "A", "aB", "ä", "Ä", "aä", "äa", "€", "😀", "a😀", "\uFFFD", "\xff", "\xc3", "\xa4", "\xff\xff",
	"k", "K", "\u212A", "kK", "\u212Ak", "s", "S", "ſ", "ss", "Sſ", "ſa", "aaa", "abab", "äÄä", "€€", "longer than every text",
	"\x00", "ß", "i", "İ", "ı", "Σ", "ς"}

var runeArgs = []rune{'a', 'b', 'ä', 'Ä', '€', '😀', utf8.RuneError, 0xff, 0xc3, 'k', 'K', 0x212A, 's', 'ſ', 0, -1, 0xD800, utf8.MaxRune, utf8.MaxRune + 1, 'x'}

var setArgs = []string{"", "a", "ab", "ba", "aä", "€😀", "\uFFFD", "\xff", "\xc3a", "äÄ", "kKs", "a\uFFFDb", "x", "xyzä", "abäÄ€😀\uFFFDkK\u212Asſ", "bä€"}

type rng struct{ min, max rune }

var rangeArgs = []rng{{'a', 'b'}, {'a', 'z'}, {'b', 'b'}, {'b', 'a'}, {'a', 'ä'}, {'ä', '€'}, {'€', utf8.MaxRune}, {0, utf8.MaxRune}, {utf8.RuneError, utf8.RuneError},
	{'😀', '😀'}, {0, 'a'}, {'A', 'Z'}, {'k', 0x212A}, {-5, -1}, {0x80, 0xff}, {0xD800, 0xDFFF}, {0x212A, 0x212A}}

type namedPred struct {
	name string
	f    pred
}

var matchArgs = []namedPred{
	{"all", func(rune) bool { return true }},
	{"none", func(rune) bool { return false }},
	{"ascii", func(r rune) bool { return r < 0x80 }},
	{"letter", unicode.IsLetter},
	{"error", func(r rune) bool { return r == utf8.RuneError }},
	{"upper", unicode.IsUpper},
	{"notA", func(r rune) bool { return r != 'a' }},
	{"zero", func(r rune) bool { return r == 0 }},
}

func ifOps() []op {
	res := []op{}
	for _, s := range strArgs {
		res = append(res, opIf(s), opIfFold(s))
	}
	res = append(res, opIfAny(), opIfAny(""), opIfAny("a", "ab"), opIfAny("ab", "a"), opIfAny("b", "ä", "a"), opIfAny("x", "", "a"),
		opIfAny("😀", "€", "\xff"), opIfAny("aa", "ab", "aä"), opIfAny("x", "y", "k"), opIfAny("k", "kK", "kKs"), opIfAny("b", "b", "a", "€", "ä"))
	for _, m := range fwdPredOps() {
		res = append(res, m["If"])
	}
	return res
}

func fwdPredOps() []map[string]op {
	ms := []map[string]op{}
	for _, r := range runeArgs {
		ms = append(ms, runeOps(r))
	}
	for _, s := range setArgs {
		ms = append(ms, anyRuneOps(s))
	}
	for _, r := range rangeArgs {
		ms = append(ms, betweenOps(r.min, r.max))
	}
	for _, m := range matchArgs {
		ms = append(ms, matchOps(m.name, m.f))
	}
	return ms
}

func revPreds() []map[string]op {
	ms := []map[string]op{}
	for _, r := range runeArgs {
		ms = append(ms, revRuneOps(r))
	}
	for _, s := range setArgs {
		ms = append(ms, revAnyRuneOps(s))
	}
	for _, r := range rangeArgs {
		ms = append(ms, revBetweenOps(r.min, r.max))
	}
	for _, m := range matchArgs {
		ms = append(ms, revMatchOps(m.name, m.f))
	}
	return ms
}

func toOps() []op {
	res := []op{}
	for _, s := range strArgs {
		res = append(res, opTo(s), opToFold(s))
	}
	for _, m := range fwdPredOps() {
		res = append(res, m["To"])
	}
	return res
}

func whileOps() []op {
	res := []op{}
	for _, m := range fwdPredOps() {
		res = append(res, m["While"])
	}
	return res
}

func revOps() []op {
	res := []op{opRevReadRune()}
	for _, s := range strArgs {
		res = append(res, opRevIf(s), opRevIfFold(s), opRevTo(s), opRevToFold(s))
	}
	res = append(res, opRevIfAny(), opRevIfAny(""), opRevIfAny("b", "ab"), opRevIfAny("ab", "b"), opRevIfAny("b", "ä", "a"), opRevIfAny("x", "", "a"),
		opRevIfAny("😀", "€", "\xff"), opRevIfAny("ba", "aa", "äa"), opRevIfAny("Kk", "k"))
	for _, m := range revPreds() {
		res = append(res, m["If"], m["To"], m["While"])
	}
	return res
}

// ------------------------------------------------------------------ checking

// at creates a scanner for t that stands at p.
func at(w *W, t string, p int) *tok.Scanner {
	s := tok.NewScanner(t)
	if p != 0 {
		s.Move(p)
	}
	if int(s.Mark()) != p {
		w.Fail("the scanner can not be moved to %d", p)
	}
	return s
}

// apply runs o on s, which stands at p, and compares with the model.
func apply(w *W, s *tok.Scanner, t string, p int, o *op) {
	want := o.model(t, p)
	w.note = o.name
	ok := o.do(s)
	got := int(s.Mark())
	w.trans++
	if want.skip {
		return
	}
	if ok == want.ok && got == want.pos {
		return
	}
	if o.known != nil {
		if k := o.known(t, p, want, got, ok); k != "" {
			w.Known(k, "%s returns %v and moves to %d, expected %v and %d", o.name, ok, got, want.ok, want.pos)
			return
		}
	}
	w.Fail("returned %v and moved to %d, expected %v and %d", ok, got, want.ok, want.pos)
}

// single runs every operation on every text at every position.
func single(c *Ctx, phase, bound string, list []string, chunk int, ops []op) {
	overList(c, phase, bound, list, chunk, func(w *W, t string) {
		for p := 0; p <= len(t); p++ {
			p := p
			w.Case(func() string { return fmt.Sprintf("text %q at %d", t, p) }, func() {
				for i := range ops {
					apply(w, at(w, t, p), t, p, &ops[i])
				}
			})
		}
	})
}

// ladders: long runs, to find behaviour that depends on a size.
var ladderSizes = func() []int {
	res := []int{}
	for i := 1; i <= 70; i++ {
		res = append(res, i)
	}
	return append(res, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9999, 65535, 65536, 65537)
}()

type ladderCase struct {
	text string
	pos  int
	ops  []op
}

var ladderSymbols = []string{"a", "ä", "€", "😀", "\uFFFD", "\xff", "K", "\u212A"}

// ladderTexts calls f with run, the text around it and the argument material.
func ladder(c *Ctx, phase string, max int, mk func(run string, sym string, n int) []ladderCase) {
	sizes := []int{}
	for _, n := range ladderSizes {
		if n <= max {
			sizes = append(sizes, n)
		}
	}
	c.Phase(phase, fmt.Sprintf("runs of 1..70 and around powers of two up to %d of each of %d symbols", max, len(ladderSymbols)), len(sizes), func(w *W, u int) {
		n := sizes[u]
		for _, sym := range ladderSymbols {
			run := strings.Repeat(sym, n)
			for _, lc := range mk(run, sym, n) {
				lc := lc
				w.Case(func() string {
					return fmt.Sprintf("%d times %q, text of %d bytes (%.40q...) at %d", n, sym, len(lc.text), lc.text, lc.pos)
				}, func() {
					for i := range lc.ops {
						if len(lc.ops[i].name) > 100 {
							lc.ops[i].name = lc.ops[i].name[:100] + "..."
						}
						apply(w, at(w, lc.text, lc.pos), lc.text, lc.pos, &lc.ops[i])
					}
				})
			}
		}
	})
}

func firstRune(s string) rune {
	r, _ := utf8.DecodeRuneInString(s)
	return r
}

// allRunes runs f for every code point, in units of 0x1000.
func allRunes(c *Ctx, phase string, f func(w *W, r rune)) {
	c.Phase(phase, "all 0x110000 code points without the surrogates", 0x110, func(w *W, u int) {
		for r := rune(u * 0x1000); r < rune((u+1)*0x1000); r++ {
			if r >= 0xD800 && r <= 0xDFFF {
				continue
			}
			f(w, r)
		}
	})
}

func orbit(r rune) []rune {
	res := []rune{}
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		res = append(res, f)
	}
	return res
}
