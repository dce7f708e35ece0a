package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// A space is a finite list of expressions, each with the texts to read.
type space struct {
	name  string
	bound string
	n     int
	at    func(i int) *ex
	texts []string
	every bool // at every byte position, otherwise at 0
}

func listSpace(name, bound string, list []*ex, texts []string, every bool) space {
	return space{name, bound, len(list), func(i int) *ex { return list[i] }, texts, every}
}

var unaryKinds = []kind{kAt, kNot, kOpt, kZom, kMany, kTo, kPast}

const nUnary = 11

func unary(i int, s *ex) *ex {
	if i < len(unaryKinds) {
		return eUn(unaryKinds[i], s)
	}
	return eTimes(i-len(unaryKinds), s) // 0..3
}

const nBinary = 5

func binary(i int, a, b *ex) *ex {
	switch i {
	case 0:
		return eSeq(a, b)
	case 1:
		return eAny(a, b)
	case 2:
		return eBin(kBody, a, b)
	case 3:
		return eBin(kBodyTail, a, b)
	}
	return eSkipSeq(eUn(kZom, eRuneRaw('b')), a, b)
}

func allUnary(list []*ex) []*ex {
	res := []*ex{}
	for _, s := range list {
		for i := 0; i < nUnary; i++ {
			res = append(res, unary(i, s))
		}
	}
	return res
}

func allBinary(a, b []*ex) []*ex {
	res := []*ex{}
	for _, x := range a {
		for _, y := range b {
			for i := 0; i < nBinary; i++ {
				res = append(res, binary(i, x, y))
			}
		}
	}
	return res
}

func binarySpace(name, bound string, a, b []*ex, texts []string, every bool) space {
	return space{name, bound, len(a) * len(b) * nBinary, func(i int) *ex {
		k := i % nBinary
		i /= nBinary
		return binary(k, a[i%len(a)], b[i/len(a)])
	}, texts, every}
}

func cat(lists ...[]*ex) []*ex {
	res := []*ex{}
	for _, l := range lists {
		res = append(res, l...)
	}
	return res
}

func baseLeaves() []*ex {
	return []*ex{eLitRaw("a"), eRuneRaw('b'), eLitRaw(""), eAtEnd(), eRune('ä'), eLit("ab")}
}

func fewLeaves() []*ex { return []*ex{eLitRaw("a"), eRuneRaw('b'), eLitRaw("")} }

var textsAB = uniq(append(append(texts([]string{"a", "b"}, 4), texts([]string{"a", "b", "ä"}, 3)...), "\xffa", "a\xff", "ab\uFFFDa", "aaaaa", "babab", "ababab"))
var textsShort = uniq(append(texts([]string{"a", "b"}, 3), "ä", "aä", "äb", "abab", "aabb", "aaaa", "\xff"))

// leaves of every kind with every sort of parameter
func richLeaves() []*ex {
	res := []*ex{}
	for _, s := range []string{"", "a", "ab", "ä", "€b", "\uFFFD", "\xff", "k", "longer than all", "\xa4", "\xac", "\x80"} {
		res = append(res, eLit(s), eFold(s))
	}
	for _, s := range []string{"K", "\u212A", "AB", "Ä", "ſs"} {
		res = append(res, eFold(s))
	}
	for _, r := range []rune{'a', 'ä', '€', '😀', utf8.RuneError, 0, -1} {
		res = append(res, eRune(r))
	}
	for _, s := range []string{"", "a", "aä", "\uFFFDb", "\xff", "kK"} {
		res = append(res, eAnyRune(s))
	}
	for _, r := range []rng{{'a', 'b'}, {'b', 'a'}, {'a', 'a'}, {'ä', '😀'}, {0, utf8.MaxRune}, {utf8.RuneError, utf8.RuneError}, {'0', '9'}} {
		res = append(res, eBetween(r.min, r.max), eHoley(r.min, r.max, ""), eHoley(r.min, r.max, "aä\uFFFD"), eHoley(r.min, r.max, "b9"))
	}
	for _, s := range []string{"", "a-b", "a-aä-€", "0-9k-s", "b-a", "€-äa-a", "---"} {
		res = append(res, eBetweenAny(s), eSet(s, ""), eSet(s, "K"), eSet(s, "ä\uFFFD"))
	}
	for _, s := range []string{"", "ab", "ba", "aaä€", "09ks", "€äba"} {
		res = append(res, eBuildBetween(s))
	}
	for i := range matchArgs {
		res = append(res, eMatch(i))
	}
	res = append(res, eInt(10, 8), eInt(16, 8), eInt(8, 64), eInt(7, 8), eInt(10, 9), eUint(10, 8), eUint(16, 16), eUint(10, 7), eBool(""), eBool("l"), eBool("x"), eAtEnd(), eWrap("a"), eWrap("ab"), eWrap(""),
		eInvalid(0), eInvalid(1), eAnyFold("a AB ä"), eAnyFold(""), eAnyFold("\u212A"),
		eNamed("nm", eLit("a")), eRule("rule", eLit("ab")), eSkipWS(eLit("a"), eRuneRaw('b')), eSkipWS(),
		eSeq(), eAny(), eSkipSeq(eUn(kOpt, eLit("a"))))
	return res
}

var richTexts = []string{"a", "b", "ä", "€", "\uFFFD", "\xff", "k", "\u212A", "1", "-", "true", " ", "\n"}

// structural spaces, shared by the checks of the reader expressions
func exprSpaces(c *Ctx) []space {
	l0 := baseLeaves()
	l1 := cat(l0, allUnary(l0), allBinary(l0, l0))
	f0 := fewLeaves()
	f1 := cat(f0, allUnary(f0))
	f2 := cat(f1, allBinary(f0, f0))
	sp := []space{}
	// all leaves with parameters, alone and under every combinator
	rich := richLeaves()
	sp = append(sp, listSpace("leaves", "every leaf with every sort of parameter, texts of up to 2 of 13 symbols, every position", rich, texts(richTexts, 2), true))
	under := cat(allUnary(rich))
	for _, x := range rich {
		for i := 0; i < nBinary; i++ {
			under = append(under, binary(i, x, eLitRaw("a")), binary(i, eLit("a"), x), binary(i, eUn(kZom, x), x), binary(i, x, eUn(kAt, x)))
		}
	}
	sp = append(sp, listSpace("leaves-under", "every leaf under every combinator, texts of up to 2 of 13 symbols and selected longer ones", under, uniq(append(texts(richTexts, 2), "aaa", "aba", "äaä", "a\xffa", "€b€", "1a1", "-1-", "truea", "atrue", " a b ", "a\nb", "kK\u212A", "abab")), false))
	sp = append(sp, listSpace("depth-1-everywhere", "one combinator over 6 leaves, texts of up to 4 of {a b ä}, every position", cat(l1), texts([]string{"a", "b", "ä"}, 4), true))
	sp = append(sp, listSpace("unary-2", "a unary combinator over every expression of depth 1", allUnary(l1), uniq(append(texts([]string{"a", "b", "ä"}, 4), textsAB...)), false))
	sp = append(sp, binarySpace("binary-2", "a binary combinator over every pair of expressions of depth 1", l1, l1, textsAB, false))
	sp = append(sp, listSpace("unary-3", "three unary combinators over 6 leaves", allUnary(allUnary(allUnary(l0))), textsAB, false))
	ub := allBinary(f1, f1)
	sp = append(sp, listSpace("unary-binary-unary", "a unary over a binary over unary combinators", allUnary(ub), textsShort, false))
	// three parts
	nt := len(f1)
	sp = append(sp, space{"ternary", "Seq, Any and SkipSeq of three expressions of depth 1", 3 * nt * nt * nt, func(i int) *ex {
		k := i % 3
		i /= 3
		a, b, d := f1[i%nt], f1[i/nt%nt], f1[i/nt/nt]
		switch k {
		case 0:
			return eSeq(a, b, d)
		case 1:
			return eAny(a, b, d)
		}
		return eSkipSeq(eUn(kOpt, eRuneRaw('b')), a, b, d)
	}, textsShort, false})
	// four parts
	q := []*ex{eLitRaw("a"), eRuneRaw('b'), eLitRaw(""), eUn(kOpt, eLitRaw("a")), eUn(kZom, eLitRaw("a")), eUn(kMany, eRuneRaw('b')), eUn(kNot, eLitRaw("a")), eUn(kAt, eLitRaw("a")), eUn(kTo, eRuneRaw('b')), eUn(kPast, eLitRaw("a"))}
	nq := len(q)
	sp = append(sp, space{"quaternary", "Seq, Any and SkipSeq of four of 10 small expressions", 3 * nq * nq * nq * nq, func(i int) *ex {
		k := i % 3
		i /= 3
		a, b, d, f := q[i%nq], q[i/nq%nq], q[i/nq/nq%nq], q[i/nq/nq/nq]
		switch k {
		case 0:
			return eSeq(a, b, d, f)
		case 1:
			return eAny(a, b, d, f)
		}
		return eSkipSeq(eUn(kOpt, eRuneRaw('b')), a, b, d, f)
	}, textsShort, false})
	// selected shapes of depth 3
	sp = append(sp, space{"choice-of-sequences", "Any of two Seq of depth-1 expressions", len(f1) * len(f1) * len(f1), func(i int) *ex {
		a, b, d := f1[i%nt], f1[i/nt%nt], f1[i/nt/nt]
		return eAny(eSeq(a, b), eSeq(a, d))
	}, textsShort, false})
	if c.thorough {
		sp = append(sp, binarySpace("binary-3", "a binary combinator over every pair of depth-2 expressions over 3 leaves", cat(f2, allUnary(allUnary(f0)), allUnary(allBinary(f0, f0))), cat(f2, allUnary(allUnary(f0)), allUnary(allBinary(f0, f0))), textsShort, false))
		sp = append(sp, listSpace("unary-4", "four unary combinators over 6 leaves", allUnary(allUnary(allUnary(allUnary(l0)))), textsAB, false))
		u2 := allUnary(allUnary(f0))
		sp = append(sp, space{"unary-2-binary", "two unary over a binary over two times unary combinators", len(u2) * len(u2) * nBinary, func(i int) *ex {
			k := i % nBinary
			i /= nBinary
			return binary(k, u2[i%len(u2)], u2[i/len(u2)])
		}, textsAB, false})
	}
	// every expression as the skipped part
	sp = append(sp, space{"skip", "SkipSeq with every expression of depth 1 as the skipped part and up to two parts", len(l1) * 13, func(i int) *ex {
		skip, k := l1[i%len(l1)], i/len(l1)
		if k == 12 {
			return eSkipSeq(skip)
		} else if k >= 9 {
			return eSkipSeq(skip, f0[k-9])
		}
		return eSkipSeq(skip, f0[k%3], f0[k/3])
	}, textsAB, false})
	sp = append(sp, mixedSpace())
	sp = append(sp, specialSpace())
	sp = append(sp, ladderSpace())
	sp = append(sp, bigSpaces(c)...)
	return sp
}

// bigSpaces: sizes around powers of two and ten.
func bigSpaces(c *Ctx) []space {
	sizes := []int{255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097}
	if c.thorough {
		sizes = append(sizes, 511, 512, 513, 2047, 2048, 2049, 9999, 10000, 10001)
	}
	res := []space{}
	for _, n := range sizes {
		seq, alt := []*ex{}, []*ex{}
		set := ""
		for i := 0; i < n; i++ {
			seq = append(seq, eLitRaw("a"))
			alt = append(alt, eLitRaw(fmt.Sprintf("x%d", i)))
			set += string(rune(0x4000 + i))
		}
		a := strings.Repeat("a", n)
		list := []*ex{eTimes(n, eLit("a")), eLit(a), eFold(strings.ToUpper(a)), eUn(kZom, eLit("a")), eUn(kMany, eLit("a")), eUn(kTo, eLit("b")), eUn(kPast, eLit("b")),
			eBin(kBody, eUn(kZom, eLit("a")), eLit("b")), eBin(kBodyTail, eUn(kZom, eLit("a")), eLit("b")), eUn(kZom, eUn(kNot, eLit("b"))), eSeq(eUn(kZom, eLit("a")), eAtEnd()), eUn(kTo, eLit("ac"))}
		if n <= 1025 {
			list = append(list, eSeq(seq...), eSkipSeq(eUn(kZom, eRuneRaw('b')), seq...), eAny(append(alt, eLit("a"))...), eTimes(n, eAny(eRuneRaw('a'), eRuneRaw('b'))), eUn(kZom, eSeq(eLit("a"), eUn(kOpt, eLit("b")))), eAnyRune(set+"a"), eHoley(0, utf8.MaxRune, set))
		}
		if n <= 257 {
			list = append(list, eUn(kZom, eAnyRune(set+"a")), eAny(eSeq(append(append([]*ex{}, seq...), eLit("c"))...), eSeq(append(append([]*ex{}, seq...), eLit("b"))...)))
		}
		txts := []string{a, a + "b", a + "c", a[1:] + "b", a + "ab", strings.Repeat("ab", n), strings.Repeat("ä", n) + "b"}
		sp := listSpace(fmt.Sprintf("sizes-%d", n), fmt.Sprintf("repetitions, sequences, alternatives, strings and sets of %d", n), list, txts, false)
		res = append(res, sp)
	}
	return res
}

// mixedSpace: long lists with two parts that can match at every pair of selected places.
func mixedSpace() space {
	sorts := []*ex{eLitRaw("a"), eLitRaw("ab"), eRuneRaw('a'), eLit("ab"), eAnyRune("ba"), eBetween('a', 'a'), eFold("AB"), eSeq(eRuneRaw('a'), eLitRaw("b")), eUn(kOpt, eLit("ab")), eLitRaw(""), eUn(kAt, eLit("a")), eAny(eLit("x"), eLit("ab")), eInvalid(0), eTimes(1, eLit("a"))}
	fill := []func(i int) *ex{
		func(i int) *ex { return eLitRaw(fmt.Sprintf("x%d", i)) },
		func(i int) *ex {
			return []*ex{eRuneRaw(rune(0x3000 + i)), eLit(fmt.Sprintf("x%d", i)), eFold(fmt.Sprintf("y%d", i)), eSeq(eLit("a"), eLitRaw("x")), eBetween('c', 'd')}[i%5]
		},
	}
	list := []*ex{}
	for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 64, 65} {
		places := [][2]int{{0, 1}, {0, n / 2}, {0, n - 1}, {1, n - 1}, {n / 2, n - 1}, {n - 2, n - 1}}
		if n < 5 {
			places = places[2:4]
		}
		for _, pl := range places {
			if pl[0] >= pl[1] {
				continue
			}
			for _, a := range sorts {
				for _, b := range sorts {
					for k, f := range fill {
						if n > 17 && k == 0 {
							continue
						}
						l := []*ex{}
						for i := 0; i < n; i++ {
							switch i {
							case pl[0]:
								l = append(l, a)
							case pl[1]:
								l = append(l, b)
							default:
								l = append(l, f(i))
							}
						}
						list = append(list, eAny(l...))
					}
					// a sequence with two parts that can fail
					l := []*ex{}
					for i := 0; i < n; i++ {
						switch i {
						case pl[0]:
							l = append(l, a)
						case pl[1]:
							l = append(l, b)
						default:
							l = append(l, eUn(kOpt, eRuneRaw('b')))
						}
					}
					list = append(list, eSeq(l...), eSkipSeq(eUn(kOpt, eRuneRaw('b')), l...))
				}
			}
		}
	}
	return listSpace("mixed-lists", "Any, Seq and SkipSeq of 3..65 parts of different sorts, two of 14 sorts at selected places", list, []string{"", "a", "b", "ab", "aab", "abab", "ax", "x2", "babb"}, false)
}

// ladderSpace: sizes of everything that has a size.
func ladderSpace() space {
	list := []*ex{}
	sizes := []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200}
	for _, n := range sizes {
		list = append(list, eTimes(n, eLit("a")), eTimes(n, eLit("")), eTimes(n, eAny(eRuneRaw('a'), eRuneRaw('b'))))
		seq, alt, nest, nestAny := []*ex{}, []*ex{}, eLit("b"), eLit("b")
		for i := 0; i < n; i++ {
			seq = append(seq, eLitRaw("a"))
			alt = append(alt, eLitRaw(fmt.Sprintf("x%d", i)))
			nest = eSeq(eLitRaw("a"), nest)
			nestAny = eAny(eSeq(eLitRaw("a"), nestAny), eLit("c"))
		}
		list = append(list, eSeq(seq...), eSkipSeq(eUn(kZom, eRuneRaw('b')), seq...), eAny(append(alt, eLit("a"))...), eAny(alt...), eAny(append([]*ex{eLit("aaab")}, alt...)...), nest, nestAny)
		list = append(list, eSeq(append(append([]*ex{}, seq...), eLit("b"))...), eAny(eSeq(append(append([]*ex{}, seq...), eLit("c"))...), eSeq(append(append([]*ex{}, seq...), eLit("b"))...)))
	}
	list = append(list, eUn(kZom, eLit("a")), eUn(kMany, eLit("a")), eUn(kTo, eLit("b")), eUn(kPast, eLit("b")), eBin(kBody, eUn(kZom, eLit("a")), eLit("b")), eBin(kBodyTail, eUn(kZom, eLit("a")), eLit("b")),
		eUn(kZom, eUn(kNot, eLit("b"))), eSeq(eUn(kZom, eLit("a")), eAtEnd()), eUn(kMany, eAny(eLit("aa"), eLit("ab"))))
	txts := []string{}
	for _, n := range sizes {
		a := strings.Repeat("a", n)
		txts = append(txts, a, a+"b", a+"c", strings.Repeat("ab", n), a[1:]+"b", a+"ab", "x3", strings.Repeat("ä", n)+"b")
	}
	return listSpace("sizes", "repetitions, sequences, alternatives and nesting of 4..200", list, txts, false)
}

// decorate rebuilds e with f applied to every node.
func decorate(e *ex, f func(n *ex) *ex) *ex {
	if len(e.sub) > 0 {
		c := *e
		c.sub = make([]*ex, len(e.sub))
		for i, s := range e.sub {
			c.sub[i] = decorate(s, f)
		}
		return f(mk(c))
	}
	if e.raw {
		c := *e
		c.raw = false
		return f(mk(c))
	}
	return f(e)
}

type judge interface {
	begin(w *W, e *ex)
	text(w *W, t string, p int)
	end(w *W)
}

// explore runs all texts of all spaces.
func explore(c *Ctx, spaces []space, newJudge func() judge) {
	for _, sp := range spaces {
		sp := sp
		per := 64
		if strings.HasPrefix(sp.name, "sizes-") {
			per = 1
		}
		units := (sp.n + per - 1) / per
		c.Phase(sp.name, fmt.Sprintf("%s (%d expressions, %d texts)", sp.bound, sp.n, len(sp.texts)), units, func(w *W, u int) {
			j := newJudge()
			for i := u * per; i < sp.n && i < (u+1)*per; i++ {
				e := sp.at(i)
				w.Case(func() string { return e.String() }, func() {
					j.begin(w, e)
					for _, t := range sp.texts {
						if sp.every {
							for p := 0; p <= len(t); p++ {
								j.text(w, t, p)
							}
						} else {
							j.text(w, t, 0)
						}
						if w.failed {
							break
						}
					}
					j.end(w)
				})
			}
		})
	}
}
