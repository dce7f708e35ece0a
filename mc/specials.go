package main

import (
	"fmt"
	"unicode"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// Characters that code likes to treat in a special way: line breaks, spaces,
// quotes, combining and joining characters, byte order marks.
var specials = []string{"\n", "\r", "\t", " ", "\x00", "\"", "\\", "/", "-", "_", "0", "A", "z", "\u0301", "\u200d", "\uFEFF", "\u2028", "\u00a0", "\u0085", "\U0001F600"}

var specialTexts = uniq(append(texts(specials, 2), append(texts([]string{"\n", "\r", " ", "\u0301", "A"}, 4), texts([]string{"\r", "\n", "\\", "\"", "\uFEFF", "\u200d", "\U0001F600"}, 3)...)...))

// for the calls of the scanner, which are cheap
var specialTexts3 = uniq(append(texts(specials, 3), specialTexts...))

var specialArgs = append(append([]string{}, specials...), "\r\n", "\n\r", "\n\n", "  ", "A\u0301", "\\\"", "//", "--", "\uFEFFA", " \n")

var specialPreds = []namedPred{{"space", unicode.IsSpace}, {"mark", unicode.IsMark}, {"control", unicode.IsControl}, {"print", unicode.IsPrint}, {"all", func(rune) bool { return true }}}

func specialMaps(rev bool) []map[string]op {
	ms := []map[string]op{}
	for _, a := range specials {
		r := firstRune(a)
		if rev {
			ms = append(ms, revRuneOps(r))
		} else {
			ms = append(ms, runeOps(r))
		}
	}
	for _, set := range []string{"\r\n", "\n", " \t\r\n", "\u0301", "\"\\", "A\u0301\U0001F600", "\uFEFF\u200d\u2028\u00a0\u0085"} {
		if rev {
			ms = append(ms, revAnyRuneOps(set))
		} else {
			ms = append(ms, anyRuneOps(set))
		}
	}
	for _, b := range [][2]rune{{0, 31}, {0, ' '}, {'\t', '\r'}, {'!', utf8.MaxRune}, {0x300, 0x36f}, {0x80, 0xa0}, {0x2000, 0xFEFF}} {
		if rev {
			ms = append(ms, revBetweenOps(b[0], b[1]))
		} else {
			ms = append(ms, betweenOps(b[0], b[1]))
		}
	}
	for _, m := range specialPreds {
		if rev {
			ms = append(ms, revMatchOps(m.name, m.f))
		} else {
			ms = append(ms, matchOps(m.name, m.f))
		}
	}
	return ms
}

// specialOps: the calls of one kind (If, To or While) with special characters.
func specialOps(kinds []string, rev bool) []op {
	res := []op{}
	for _, k := range kinds {
		for _, a := range specialArgs {
			switch {
			case k == "If" && rev:
				res = append(res, opRevIf(a), opRevIfFold(a), opRevIfAny("q", a), opRevIfAny(a, "\n", " "))
			case k == "If":
				res = append(res, opIf(a), opIfFold(a), opIfAny("q", a), opIfAny(a, "\n", " "))
			case k == "To" && rev:
				res = append(res, opRevTo(a), opRevToFold(a))
			case k == "To":
				res = append(res, opTo(a), opToFold(a))
			}
		}
		for _, m := range specialMaps(rev) {
			res = append(res, m[k])
		}
	}
	return res
}

func specialSingle(c *Ctx, kinds []string, rev bool) {
	ops := specialOps(kinds, rev)
	if rev {
		ops = append(ops, opRevReadRune())
	}
	single(c, "specials", fmt.Sprintf("texts of up to 3 of %d special characters (line breaks, spaces, quotes, combining characters, ...) and 4 of 5, every byte position, %d calls", len(specials), len(ops)), specialTexts3, 16, ops)
}

// specialMoves: move calls, Since and Get over special characters.
func specialMoves(c *Ctx) {
	overList(c, "specials", fmt.Sprintf("texts of up to 3 of %d special characters (line breaks, spaces, quotes, combining characters, ...) and 4 of 5, every byte position, all move calls, Since and Get from every marker", len(specials)), specialTexts3, 16, func(w *W, t string) {
		ops := moveOps(len(t))
		for n := 1; n <= 3; n++ {
			ops = append(ops, opScan(n))
		}
		for p := 0; p <= len(t); p++ {
			p := p
			w.Case(func() string { return fmt.Sprintf("text %q at %d", t, p) }, func() {
				s := tok.NewScanner(t)
				tr := &recTracker{size: len(t)}
				s.Tracker = tr
				for i := range ops {
					if !s.ToMarker(tok.Marker(p)) || int(s.Mark()) != p {
						w.Fail("ToMarker(%d) fails", p)
						return
					}
					if _, ok := applyTracked(w, s, tr, t, p, &ops[i]); !ok {
						return
					}
				}
				s.ToMarker(tok.Marker(p))
				sinceAndGet(w, s, t, p)
				for a := 0; a <= len(t); a++ {
					for b := 0; b <= len(t); b++ {
						lo, hi := a, b
						if lo > hi {
							lo, hi = hi, lo
						}
						if got := s.Get(tok.MakeToken(tok.Marker(a), tok.Marker(b))); got != t[lo:hi] {
							w.Fail("Get([%d,%d)) is %q", a, b, got)
						}
					}
				}
			})
		}
	})
}

// specialSpace: expressions over special characters.
func specialSpace() space {
	leaves := []*ex{}
	for _, a := range specialArgs {
		leaves = append(leaves, eLit(a), eFold(a))
	}
	for _, a := range specials {
		leaves = append(leaves, eRune(firstRune(a)))
	}
	for _, set := range []string{"\r\n", " \t\r\n", "A\u0301", "\uFEFF\u200d\u2028"} {
		leaves = append(leaves, eAnyRune(set))
	}
	leaves = append(leaves, eBetween(0, ' '), eBetween('!', utf8.MaxRune), eBetween(0x300, 0x36f), eAtEnd(), eLit("q"), eWrap("\n"), eBool(""), eInt(10, 8))
	list := append([]*ex{}, leaves...)
	list = append(list, allUnary(leaves)...)
	few := []*ex{eLit("\n"), eLit("\r\n"), eRune('\r'), eRune(' '), eLit("A"), eRune(0x301), eLit("\\"), eUn(kNot, eLit("\"")), eUn(kNot, eLit("\n")), eUn(kZom, eAnyRune("\r\n")), eUn(kNot, eAtEnd()), eLit("\uFEFF")}
	list = append(list, allBinary(few, few)...)
	for _, x := range few {
		for _, y := range few {
			list = append(list, eUn(kZom, eAny(x, y)), eUn(kMany, eSeq(x, y)), eUn(kTo, eSeq(x, y)), eUn(kPast, eAny(x, y)), eUn(kNot, eSeq(x, y)), eSkipWS(x, y), eUn(kZom, eUn(kNot, eAny(x, y))), eTimes(2, eAny(x, y)))
		}
	}
	return listSpace("specials", "expressions over special characters (line breaks, spaces, quotes, combining characters, ...)", list, specialTexts, false)
}
