package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aiq/tok"
)

func init() {
	register("C16", "all pairs (and triples for the laws) of tokens over a range of markers; every relation and operation compared with the interval model", checkC16)
	register("C17", "all lists of segments up to a length over small ranges, and structured long lists; sorted order compared with the reference order", checkC17)
	register("C18", "all lists of segments up to a length over all ranges of a small text; result compared with the reference partition", checkC18)
	register("C19", "all sequences of Append calls up to a length over all segments of a small range; the tree compared with the nesting model after every call", checkC19)
	register("C20", "all graphs built from segment sequences and all hand-made trees up to a size; Leafs, FlameStack and Equal compared with the tree", checkC20)
}

func tk(a, b int) tok.Token { return tok.MakeToken(tok.Marker(a), tok.Marker(b)) }

func allTokens(n int) []tok.Token {
	res := []tok.Token{}
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			res = append(res, tk(a, b))
		}
	}
	return res
}

// ---------------------------------------------------------------------- C16

type iv struct{ a, b int }

func (x iv) before(y iv) bool { return x.b <= y.a }
func (x iv) after(y iv) bool  { return x.a >= y.b }
func (x iv) covers(y iv) bool { return x.a <= y.a && y.b <= x.b }

// clash: a common place, but each has one that the other has not.
func (x iv) clashes(y iv) bool {
	return x.a < y.a && y.a < x.b && x.b < y.b || y.a < x.a && x.a < y.b && y.b < x.b
}

func checkC16(c *Ctx) {
	n := c.quickOr(30, 60)
	text := strings.Repeat("0123456789", 10)
	c.Phase("pairs", fmt.Sprintf("all pairs of tokens made from markers 0..%d in both orders", n), (n+1)*(n+1), func(w *W, u int) {
		p, q := u/(n+1), u%(n+1)
		w.Case(func() string { return fmt.Sprintf("token of %d,%d", p, q) }, func() {
			t := tk(p, q)
			x := iv{p, q}
			if p > q {
				x = iv{q, p}
			}
			s := tok.NewScanner(text)
			if t.Len() != x.b-x.a || t.String() != fmt.Sprintf("[%d-%d)", x.a, x.b) || s.Get(t) != text[x.a:x.b] || t != tk(x.b, x.a) {
				w.Fail("%s Len %d Get %q", t, t.Len(), s.Get(t))
			}
			sg := tok.Segment{Info: "i", Token: t}
			if sg.String() != "i"+t.String() || !sg.Known() || (tok.Segment{Token: t}).Known() {
				w.Fail("segment %s", sg)
			}
			for a := 0; a <= n; a++ {
				for b := 0; b <= n; b++ {
					o := tk(a, b)
					y := iv{a, b}
					if a > b {
						y = iv{b, a}
					}
					w.states++
					w.trans += 8
					if t.Before(o) != x.before(y) || t.After(o) != x.after(y) || t.Covers(o) != x.covers(y) || t.Clashes(o) != x.clashes(y) {
						w.Fail("%s and %s: before %v after %v covers %v clashes %v", t, o, t.Before(o), t.After(o), t.Covers(o), t.Clashes(o))
					}
					if !(t.Before(o) || t.After(o) || t.Covers(o) || o.Covers(t) || t.Clashes(o)) {
						w.Fail("%s and %s are not related", t, o)
					}
					if t.Clashes(o) && (t.Before(o) || t.After(o) || t.Covers(o) || o.Covers(t)) || t.Clashes(o) != o.Clashes(t) || t.Before(o) != o.After(t) {
						w.Fail("%s and %s: relations contradict", t, o)
					}
					m := t.Merge(o)
					want := iv{x.a, x.b}
					if y.a < want.a {
						want.a = y.a
					}
					if y.b > want.b {
						want.b = y.b
					}
					if f, e := ends(m); f != want.a || e != want.b || m != o.Merge(t) {
						w.Fail("%s merge %s is %s", t, o, m)
					}
					l, r := t.Split(o)
					la, lb := ends(l)
					ra, rb := ends(r)
					if la > lb || ra > rb || l.Len() < 0 || r.Len() < 0 {
						w.Fail("%s split by %s gives a token with its ends in the wrong order: %s %s", t, o, l, r)
					}
					if x.covers(y) {
						if la != x.a || lb != y.a || ra != y.b || rb != x.b {
							w.Fail("%s split by %s is %s %s", t, o, l, r)
						}
						if s.Get(l)+s.Get(o)+s.Get(r) != s.Get(t) {
							w.Fail("%s split by %s does not give the text", t, o)
						}
						ls, rs := sg.Split(tok.Segment{Info: "sep", Token: o})
						if ls.Info != "i" || rs.Info != "i" || ls.Token != l || rs.Token != r {
							w.Fail("segment %s split by %s is %s %s", sg, o, ls, rs)
						}
					}
				}
			}
		})
	})
	// markers that don't fit in fewer bits
	ms := []int{0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 53, 1<<53 + 1, 1 << 62, 1<<63 - 2, 1<<63 - 1}
	c.Phase("huge", fmt.Sprintf("all pairs of tokens made from %d markers between 0 and 2^63-1", len(ms)), len(ms)*len(ms), func(w *W, u int) {
		p, q := ms[u/len(ms)], ms[u%len(ms)]
		w.Case(func() string { return fmt.Sprintf("token of %d,%d", p, q) }, func() {
			t := tk(p, q)
			x := iv{min(p, q), max(p, q)}
			sg := tok.Segment{Info: "i", Token: t}
			if t.Len() != x.b-x.a || t.String() != fmt.Sprintf("[%d-%d)", x.a, x.b) || sg.String() != "i"+t.String() || t != tk(q, p) {
				w.Fail("%s Len %d", t, t.Len())
			}
			for _, a := range ms {
				for _, b := range ms {
					o := tk(a, b)
					y := iv{min(a, b), max(a, b)}
					w.states++
					w.trans += 7
					if t.Before(o) != x.before(y) || t.After(o) != x.after(y) || t.Covers(o) != x.covers(y) || t.Clashes(o) != x.clashes(y) {
						w.Fail("%s and %s: before %v after %v covers %v clashes %v", t, o, t.Before(o), t.After(o), t.Covers(o), t.Clashes(o))
					}
					if m := t.Merge(o); m != tk(min(x.a, y.a), max(x.b, y.b)) || m.Len() != max(x.b, y.b)-min(x.a, y.a) {
						w.Fail("%s merge %s is %s", t, o, m)
					}
					if x.covers(y) {
						l, r := t.Split(o)
						ls, rs := sg.Split(tok.Segment{Info: "sep", Token: o})
						if l != tk(x.a, y.a) || r != tk(y.b, x.b) || ls != (tok.Segment{Info: "i", Token: l}) || rs != (tok.Segment{Info: "i", Token: r}) {
							w.Fail("%s split by %s is %s %s", t, o, l, r)
						}
					}
				}
			}
		})
	})
	c.Phase("infos", fmt.Sprintf("segments with %d infos (percent signs, separators, line breaks, ...) and all tokens over 0..4", len(strangeInfos)), len(strangeInfos), func(w *W, u int) {
		info := strangeInfos[u]
		w.Case(func() string { return fmt.Sprintf("info %q", info) }, func() {
			for _, t := range allTokens(4) {
				a, b := ends(t)
				sg := tok.Segment{Info: info, Token: t}
				w.trans++
				if want := info + "[" + fmt.Sprint(a) + "-" + fmt.Sprint(b) + ")"; sg.String() != want || sg.Known() != (info != "") || sg.Len() != b-a {
					w.Fail("segment %q, expected %q", sg.String(), want)
				}
				for _, o := range allTokens(4) {
					if !t.Covers(o) {
						continue
					}
					l, r := sg.Split(tok.Segment{Info: "sep", Token: o})
					tl, tr := t.Split(o)
					if l != (tok.Segment{Info: info, Token: tl}) || r != (tok.Segment{Info: info, Token: tr}) {
						w.Fail("%s split by %s is %s %s", sg, o, l, r)
					}
				}
			}
		})
	})
	k := c.quickOr(9, 12)
	all := allTokens(k)
	c.Phase("triples", fmt.Sprintf("laws over all triples of tokens over 0..%d", k), len(all), func(w *W, u int) {
		a := all[u]
		w.Case(func() string { return fmt.Sprintf("laws of %s", a) }, func() {
			for _, b := range all {
				for _, d := range all {
					w.trans++
					if a.Covers(b) && b.Covers(d) && !a.Covers(d) || a.Covers(b) && a.Covers(d) && !a.Covers(b.Merge(d)) {
						w.Fail("covering of %s %s %s", a, b, d)
					}
					if a.Merge(b).Merge(d) != a.Merge(b.Merge(d)) {
						w.Fail("merging of %s %s %s", a, b, d)
					}
					if a.Before(b) && b.Before(d) && !a.Before(d) {
						w.Fail("order of %s %s %s", a, b, d)
					}
				}
			}
		})
	})
	c.Phase("large", "markers around powers of two up to 2^31", 32, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("around 2^%d", u) }, func() {
			for i := -2; i <= 2; i++ {
				for j := -2; j <= 2; j++ {
					a, b := 1<<u+i, 1<<u+j
					if a < 0 || b < 0 {
						continue
					}
					t, o := tk(a, 0), tk(b, 1)
					w.trans++
					x, y := iv{0, a}, iv{1, b}
					if b < 1 {
						y = iv{b, 1}
					}
					if t.Len() != a || t.Covers(o) != x.covers(y) || t.Clashes(o) != x.clashes(y) || t.Before(o) != x.before(y) || t.After(o) != x.after(y) || t.String() != fmt.Sprintf("[0-%d)", a) {
						w.Fail("%s and %s", t, o)
					}
				}
			}
		})
	})
}

// ---------------------------------------------------------------------- C17

type srec struct {
	tok.Segment
	a, b, id int
}

// sortModel: stable by start, longer first, then rank.
func sortModel(list []srec, rank func(info string) int) []srec {
	res := append([]srec{}, list...)
	// insertion sort is stable and plain
	less := func(x, y srec) bool {
		if x.a != y.a {
			return x.a < y.a
		}
		if x.b != y.b {
			return x.b > y.b
		}
		return rank != nil && rank(x.Info) < rank(y.Info)
	}
	for i := 1; i < len(res); i++ {
		for j := i; j > 0 && less(res[j], res[j-1]); j-- {
			res[j], res[j-1] = res[j-1], res[j]
		}
	}
	return res
}

func rankIn(order []string) func(string) int {
	return func(info string) int {
		for i, o := range order {
			if o == info {
				return i
			}
		}
		return -1
	}
}

func checkSort(w *W, list []srec, order []string, byOrder bool) {
	in := make([]tok.Segment, len(list))
	for i, r := range list {
		in[i] = r.Segment
	}
	var want []srec
	if byOrder {
		want = sortModel(list, rankIn(order))
		tok.SortSegmentsByOrder(in, order)
	} else {
		want = sortModel(list, nil)
		tok.SortSegments(in)
	}
	w.trans++
	for i := range want {
		if in[i] != want[i].Segment {
			w.Fail("order %q (%v): sorted %v, expected %v", order, byOrder, in, want)
			return
		}
	}
	for i := range in {
		for j := i + 1; j < len(in) && j < i+20; j++ {
			if in[j].Covers(in[i].Token) && in[j].Token != in[i].Token {
				w.Fail("%s comes after %s that it covers", in[j], in[i])
				return
			}
		}
	}
}

func checkC17(c *Ctx) {
	// infos number the elements, so that every move of equal ones is visible
	toks := allTokens(3)
	n := c.quickOr(6, 7)
	c.Phase("lists", fmt.Sprintf("all lists of up to %d of the 10 tokens over 0..3, distinct infos", n), len(toks)*len(toks), func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("lists beginning with %s %s", toks[u/len(toks)], toks[u%len(toks)]) }, func() {
			list := []srec{}
			push := func(t tok.Token) {
				a, b := ends(t)
				id := len(list)
				list = append(list, srec{tok.Segment{Info: string(rune('a' + id)), Token: t}, a, b, id})
			}
			push(toks[u/len(toks)])
			checkSort(w, list, nil, false)
			push(toks[u%len(toks)])
			var walk func()
			walk = func() {
				if w.failed {
					return
				}
				w.states++
				checkSort(w, list, nil, false)
				if len(list) < n {
					for _, t := range toks {
						push(t)
						walk()
						list = list[:len(list)-1]
					}
				}
			}
			walk()
		})
	})
	// order lists
	orders := [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c", "b", "a"}, {"b", "c", "a"}, {"x", "c", "y", "a"}, {"c", "a", "b"}, {"x", "y"}, {"b", "x", "a"}, {"", "a", "b"}}
	few := []tok.Token{tk(0, 2), tk(0, 0), tk(1, 2), tk(0, 3)}
	infos := []string{"a", "b", "c", "d", ""}
	segs := []tok.Segment{}
	for _, t := range few {
		for _, i := range infos {
			segs = append(segs, tok.Segment{Info: i, Token: t})
		}
	}
	m := c.quickOr(4, 5)
	c.Phase("orders", fmt.Sprintf("all lists of up to %d of 20 segments (4 tokens, 5 infos) with 13 order lists", m), len(segs)*len(segs), func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("lists beginning with %s %s", segs[u/len(segs)], segs[u%len(segs)]) }, func() {
			list := []srec{}
			push := func(s tok.Segment) {
				a, b := ends(s.Token)
				list = append(list, srec{s, a, b, len(list)})
			}
			push(segs[u/len(segs)])
			push(segs[u%len(segs)])
			var walk func()
			walk = func() {
				if w.failed {
					return
				}
				w.states++
				for _, o := range orders {
					checkSort(w, list, o, true)
				}
				if len(list) < m {
					for _, s := range segs {
						push(s)
						walk()
						list = list[:len(list)-1]
					}
				}
			}
			walk()
		})
	})
	// all order lists, also with infos that are mentioned more than once
	lens := c.quickOr(5, 6)
	orderLists := texts([]string{"a", "b", "c", "x"}, lens)
	infoLists := texts([]string{"a", "b", "c", "d"}, 4)
	overList(c, "order-lists", fmt.Sprintf("all order lists of up to %d of 4 infos with all lists of up to 4 segments with the same token and 4 infos", lens), orderLists, 16, func(w *W, o string) {
		w.Case(func() string { return fmt.Sprintf("order %q", o) }, func() {
			order := strings.Split(o, "")
			if o == "" {
				order = nil
			}
			for _, l := range infoLists {
				list := []srec{}
				for i := range l {
					list = append(list, srec{tok.Segment{Info: l[i : i+1], Token: tk(1, 2)}, 1, 2, i})
				}
				w.states++
				checkSort(w, list, order, true)
			}
		})
	})
	// long lists: stability is lost by unstable algorithms from 12 elements on
	all := allTokens(4)
	sized(c, "long", "lists of 2..120 segments: equal tokens, cycles through tokens with every stride, sorted, reversed", 2, 120, c.quickOr(1025, 4097), func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("lists of %d", n) }, func() {
			for stride := 0; stride < len(all); stride++ {
				for mod := 1; mod <= len(all); mod += 2 {
					if n > 130 && (stride != 0 && stride != 1 && stride != 7 || mod != 1 && mod != 3 && mod != 15) {
						continue
					}
					list := []srec{}
					for i := 0; i < n; i++ {
						t := all[(i*stride)%mod%len(all)]
						a, b := ends(t)
						list = append(list, srec{tok.Segment{Info: fmt.Sprintf("s%d", i), Token: t}, a, b, i})
					}
					checkSort(w, list, nil, false)
					rev := []srec{}
					order := []string{}
					for i := range list {
						rev = append(rev, list[len(list)-1-i])
						if i%3 == 0 {
							order = append(order, list[i].Info)
						}
					}
					checkSort(w, rev, nil, false)
					checkSort(w, rev, order, true)
					checkSort(w, list, order, true)
					w.states += 4
				}
			}
			// few infos: equal segments among equal tokens
			for k := 1; k <= 4; k++ {
				list := []srec{}
				for i := 0; i < n; i++ {
					list = append(list, srec{tok.Segment{Info: string(rune('a' + i*7%k)), Token: all[i%3]}, 0, 0, i})
					list[i].a, list[i].b = ends(all[i%3])
				}
				for _, o := range orders {
					checkSort(w, list, o, true)
				}
			}
		})
	})
}

// ---------------------------------------------------------------------- C18

func checkC18(c *Ctx) {
	n := 4
	toks := allTokens(n)
	depth := c.quickOr(5, 6)
	text := "äbc" // 4 bytes
	spare := []tok.Segment{{Info: "s", Token: tk(3, 3)}, {Info: "s", Token: tk(4, 4)}, {Info: "s", Token: tk(0, 0)}}
	c.Phase("lists", fmt.Sprintf("all lists of up to %d of the 15 tokens over 0..4 on all 15 ranges and on a scanner", depth), len(toks)*len(toks), func(w *W, u int) {
		t0 := toks[u%len(toks)]
		outer := toks[u/len(toks)]
		w.Case(func() string { return fmt.Sprintf("range %s, lists beginning with %s", outer, t0) }, func() {
			sc := tok.NewScanner(text)
			base := tok.Segment{Info: "rest", Token: outer}
			var walk func(list []tok.Segment)
			walk = func(list []tok.Segment) {
				if w.failed {
					return
				}
				w.states++
				w.trans++
				cp := append([]tok.Segment{}, list...)
				got, err := base.Segmentate(list)
				judgeSegmentate(w, base, cp, list, got, err)
				if len(list) <= 3 {
					// as the begin of a longer list
					more := append(append([]tok.Segment{}, list...), spare...)
					got, err := base.Segmentate(more[:len(list)])
					judgeSegmentate(w, base, cp, more, got, err)
					for i := range spare {
						if more[len(list)+i] != spare[i] {
							w.Fail("the list behind %v was changed to %v", list, more)
						}
					}
					// a list that was returned is not changed by the next call
					first := append([]tok.Segment{}, got...)
					base.Segmentate(more[:len(list)])
					base.Segmentate(spare)
					for i := range first {
						if first[i] != got[i] {
							w.Fail("the first list was changed to %v", got)
						}
					}
				}
				if outer == tk(0, n) {
					got, err := sc.Segmentate(list)
					judgeSegmentate(w, tok.Segment{Token: outer}, cp, list, got, err)
					if err == nil {
						str := ""
						for _, g := range got {
							str += sc.Get(g.Token)
						}
						if str != text {
							w.Fail("%v gives %q", got, str)
						}
					}
					if !sc.AtStart() {
						w.Fail("the scanner was moved")
					}
				}
				if len(list) < depth {
					for _, t := range toks {
						walk(append(list[:len(list):len(list)], tok.Segment{Info: string(rune('a' + len(list))), Token: t}))
					}
				}
			}
			if u%len(toks) == 0 {
				got, err := base.Segmentate(nil)
				judgeSegmentate(w, base, nil, nil, got, err)
			}
			walk([]tok.Segment{{Info: "a", Token: t0}})
		})
	})
	// the scanner stands anywhere
	ptexts := uniq(append(texts([]string{"a", "ä", "\n", "\xff"}, 3), append(texts([]string{"\r", "\n", " ", "\uFEFF", "\u0301"}, 2), "abcde", "a\r\nb", "a b c", "\u2028x")...))
	pdepth := c.quickOr(3, 4)
	overList(c, "scanners", fmt.Sprintf("%d texts, the scanner at every position, all lists of up to %d tokens in and behind the text", len(ptexts), pdepth), ptexts, 1, func(w *W, t string) {
		ts := allTokens(len(t) + 1)
		for p := 0; p <= len(t); p++ {
			p := p
			w.Case(func() string { return fmt.Sprintf("text %q, scanner at %d", t, p) }, func() {
				base := tok.Segment{Token: tk(0, len(t))}
				sc := at(w, t, p)
				var walk func(list []tok.Segment)
				walk = func(list []tok.Segment) {
					w.states++
					w.trans++
					cp := append([]tok.Segment{}, list...)
					got, err := sc.Segmentate(list)
					judgeSegmentate(w, base, cp, list, got, err)
					if err == nil {
						str := ""
						for _, g := range got {
							str += sc.Get(g.Token)
						}
						if str != t {
							w.Fail("%v gives %q", got, str)
						}
					}
					if int(sc.Mark()) != p {
						w.Fail("the scanner was moved")
					}
					if len(list) >= pdepth || w.failed || len(list) >= 2 && len(t) > 4 {
						return
					}
					for _, x := range ts {
						walk(append(list[:len(list):len(list)], tok.Segment{Info: string(rune('a' + len(list))), Token: x}))
					}
				}
				walk(nil)
				got, err := sc.Segmentate([]tok.Segment{})
				judgeSegmentate(w, base, nil, nil, got, err)
			})
		}
	})
	infos := []string{"", "a", "rest"}
	isegs := []tok.Segment{}
	for _, t := range allTokens(3) {
		for _, i := range infos {
			isegs = append(isegs, tok.Segment{Info: i, Token: t})
		}
	}
	idepth := c.quickOr(3, 4)
	c.Phase("infos", fmt.Sprintf("all lists of up to %d of %d segments (10 tokens, 3 infos) on a range with 3 infos and on a scanner", idepth, len(isegs)), len(isegs)*len(infos), func(w *W, u int) {
		first, base := isegs[u%len(isegs)], tok.Segment{Info: infos[u/len(isegs)], Token: tk(0, 3)}
		w.Case(func() string { return fmt.Sprintf("range %s, lists beginning with %s", base, first) }, func() {
			sc := tok.NewScanner("abc")
			var walk func(list []tok.Segment)
			walk = func(list []tok.Segment) {
				w.states++
				w.trans++
				cp := append([]tok.Segment{}, list...)
				got, err := base.Segmentate(list)
				judgeSegmentate(w, base, cp, list, got, err)
				if base.Info == "" {
					got, err := sc.Segmentate(list)
					judgeSegmentate(w, base, cp, list, got, err)
				}
				if len(list) < idepth && !w.failed {
					for _, x := range isegs {
						walk(append(list[:len(list):len(list)], x))
					}
				}
			}
			walk([]tok.Segment{first})
		})
	})
	sized(c, "long", "0..200 segments with every combination of gaps, contents and borders; each also with one segment out of order", 0, 200, c.quickOr(1025, 4097), func(w *W, k int) {
		w.Case(func() string { return fmt.Sprintf("%d segments", k) }, func() {
			for _, gap := range []int{0, 1, 3} {
				for _, size := range []int{0, 1, 2} {
					for _, first := range []int{0, 2} {
						list := []tok.Segment{}
						pos := first
						for i := 0; i < k; i++ {
							list = append(list, tok.Segment{Info: fmt.Sprint(i % 3), Token: tk(pos, pos+size)})
							pos += size + gap
						}
						for _, last := range []int{pos, pos + 1, pos - gap} {
							if last < first {
								continue
							}
							base := tok.Segment{Info: "r", Token: tk(0, last)}
							got, err := base.Segmentate(list)
							judgeSegmentate(w, base, list, list, got, err)
							w.trans++
							for i := 1; i < k; i++ {
								if k > 200 && i != 1 && i != k/2 && i != k-1 && i&(i-1) != 0 {
									continue
								}
								sw := append([]tok.Segment{}, list...)
								sw[i], sw[i-1] = sw[i-1], sw[i]
								got, err := base.Segmentate(sw)
								judgeSegmentate(w, base, sw, sw, got, err)
								w.trans++
							}
						}
					}
				}
			}
		})
	})
}

func judgeSegmentate(w *W, base tok.Segment, orig, list, got []tok.Segment, err error) {
	for i := range orig {
		if orig[i] != list[i] {
			w.Fail("the list was changed to %v", list)
			return
		}
	}
	from, to := ends(base.Token)
	want := []tok.Segment{}
	pos, valid := from, true
	for _, s := range orig {
		a, b := ends(s.Token)
		if a < pos || b > to {
			valid = false
			break
		}
		if a > pos {
			want = append(want, tok.Segment{Info: base.Info, Token: tk(pos, a)})
		}
		want = append(want, s)
		pos = b
	}
	if pos < to {
		want = append(want, tok.Segment{Info: base.Info, Token: tk(pos, to)})
	}
	if (err == nil) != valid {
		w.Fail("%s with %v: error %v, valid %v", base, orig, err, valid)
		return
	}
	if !valid {
		return
	}
	if len(got) != len(want) {
		w.Fail("%s with %v: %v, expected %v", base, orig, got, want)
		return
	}
	for i := range got {
		if got[i] != want[i] {
			w.Fail("%s with %v: %v, expected %v", base, orig, got, want)
			return
		}
	}
}

// ---------------------------------------------------------------------- C19

type tnode struct {
	info string
	a, b int
	sub  []*tnode
}

func (n *tnode) String() string {
	s := fmt.Sprintf("%s[%d-%d)", n.info, n.a, n.b)
	if len(n.sub) > 0 {
		p := []string{}
		for _, x := range n.sub {
			p = append(p, x.String())
		}
		s += "(" + strings.Join(p, " ") + ")"
	}
	return s
}

func treeOf(n *tok.Node, depth int) *tnode {
	if depth > 20000 {
		return &tnode{info: "too deep"}
	}
	a, b := ends(n.Token)
	r := &tnode{info: n.Info, a: a, b: b}
	for _, s := range n.Nodes {
		r.sub = append(r.sub, treeOf(s, depth+1))
	}
	return r
}

// nestModel: the only tree of segments of which none clash and no empty one
// touches the border of another one; later equal ones are the parents.
func nestModel(root string, segs []seg) *tnode {
	type it struct {
		seg
		i int
	}
	l := []it{}
	for i, s := range segs {
		l = append(l, it{s, i})
	}
	sort.SliceStable(l, func(x, y int) bool {
		if l[x].from != l[y].from {
			return l[x].from < l[y].from
		}
		if l[x].to != l[y].to {
			return l[x].to > l[y].to
		}
		return l[x].i > l[y].i
	})
	r := &tnode{info: root}
	if len(l) > 0 {
		r.a, r.b = l[0].from, 0
		for _, x := range l {
			if x.from < r.a {
				r.a = x.from
			}
			if x.to > r.b {
				r.b = x.to
			}
		}
	}
	stack := []*tnode{r}
	for _, x := range l {
		for len(stack) > 1 {
			top := stack[len(stack)-1]
			if top.a <= x.from && x.to <= top.b {
				break
			}
			stack = stack[:len(stack)-1]
		}
		n := &tnode{info: x.info, a: x.from, b: x.to}
		top := stack[len(stack)-1]
		top.sub = append(top.sub, n)
		stack = append(stack, n)
	}
	return r
}

// ambiguous: an empty segment lies on the border of another one.
func ambiguousNest(segs []seg) bool {
	for i, e := range segs {
		if e.from != e.to {
			continue
		}
		for j, s := range segs {
			if i != j && (s.from != e.from || s.to != e.to) && (s.from == e.from || s.to == e.from) {
				return true
			}
		}
	}
	return false
}

// invariants of a tree that holds the accepted segments.
func treeInvariants(root *tnode, acc []seg) string {
	count := map[seg]int{}
	for _, s := range acc {
		count[s]++
	}
	msg := ""
	nodes := 0
	var walk func(n *tnode, isRoot bool)
	walk = func(n *tnode, isRoot bool) {
		if msg != "" {
			return
		}
		if !isRoot {
			nodes++
			count[seg{n.info, n.a, n.b}]--
		}
		pos := n.a
		for i, s := range n.sub {
			if s.a < n.a || s.b > n.b {
				msg = fmt.Sprintf("%s does not cover its child %s", n.info, s)
				return
			}
			if i > 0 && s.a < pos {
				msg = fmt.Sprintf("the children of %s overlap or are out of order", n)
				return
			}
			pos = s.b
			walk(s, false)
		}
	}
	walk(root, true)
	if msg != "" {
		return msg
	}
	if nodes != len(acc) {
		return fmt.Sprintf("%d nodes for %d accepted segments", nodes, len(acc))
	}
	for s, n := range count {
		if n != 0 {
			return fmt.Sprintf("segment %v is not in the tree exactly once", s)
		}
	}
	return ""
}

func checkC19(c *Ctx) {
	// all histories of appends, checked after every call
	run := func(name string, toks []tok.Token, depth int) {
		n := len(toks)
		c.Phase(name, fmt.Sprintf("all sequences of %d appends of %d segments", depth, n), n*n, func(w *W, u int) {
			w.Case(func() string { return fmt.Sprintf("appends beginning with %s %s", toks[u/n], toks[u%n]) }, func() {
				hist := []int{u / n, u % n}
				var walk func()
				walk = func() {
					if w.failed {
						return
					}
					if len(hist) < depth {
						for i := 0; i < n; i++ {
							hist = append(hist, i)
							walk()
							hist = hist[:len(hist)-1]
						}
						return
					}
					w.states++
					graphHistory(w, toks, hist)
				}
				walk()
			})
		})
	}
	run("histories-0..3", allTokens(3), c.quickOr(6, 7))
	run("histories-0..4", allTokens(4), c.quickOr(5, 6))
	run("histories-0..6", allTokens(6), c.quickOr(4, 5))
	nonEmptyToks := []tok.Token{}
	for _, t := range allTokens(4) {
		if t.Len() > 0 {
			nonEmptyToks = append(nonEmptyToks, t)
		}
	}
	run("histories-nonempty-0..4", nonEmptyToks, c.quickOr(6, 7))
	// infos do not matter: equal segments, segments without an info, segments with the info of the root
	infos := []string{"", "a", "root"}
	isegs := []tok.Segment{}
	for _, t := range []tok.Token{tk(0, 0), tk(0, 1), tk(0, 2), tk(0, 3), tk(1, 1), tk(1, 2), tk(1, 3)} {
		for _, i := range infos {
			isegs = append(isegs, tok.Segment{Info: i, Token: t})
		}
	}
	idepth := c.quickOr(4, 5)
	c.Phase("histories-infos", fmt.Sprintf("all sequences of %d appends of %d segments, 7 tokens with 3 infos", idepth, len(isegs)), len(isegs)*len(isegs), func(w *W, u int) {
		n := len(isegs)
		w.Case(func() string { return fmt.Sprintf("appends beginning with %s %s", isegs[u/n], isegs[u%n]) }, func() {
			hist := []tok.Segment{isegs[u/n], isegs[u%n]}
			segmentHistory(w, hist[:1])
			segmentHistory(w, hist)
			var walk func()
			walk = func() {
				for _, s := range isegs {
					hist = append(hist, s)
					w.states++
					segmentHistory(w, hist)
					if len(hist) < idepth && !w.failed {
						walk()
					}
					hist = hist[:len(hist)-1]
				}
			}
			walk()
		})
	})
	// order independence: all permutations of laminar families
	fams := [][][2]int{
		{{0, 9}, {0, 4}, {0, 2}, {2, 4}, {5, 9}, {6, 8}},
		{{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}, {0, 5}},
		{{0, 6}, {1, 5}, {2, 4}, {3, 4}, {2, 3}, {7, 8}},
		{{2, 4}, {1, 5}, {7, 9}, {7, 8}, {0, 10}, {3, 3}},
		{{0, 3}, {3, 6}, {6, 9}, {0, 6}, {0, 9}, {4, 5}},
		{{4, 8}, {0, 12}, {4, 6}, {6, 8}, {0, 4}, {8, 12}, {1, 2}},
		{{0, 8}, {0, 4}, {4, 8}, {0, 2}, {2, 4}, {4, 6}, {6, 8}},
	}
	c.Phase("permutations", "all orders of 7 families of 6 or 7 nested segments", len(fams), func(w *W, u int) {
		f := fams[u]
		w.Case(func() string { return fmt.Sprintf("family %v", f) }, func() {
			segs := []seg{}
			for i, x := range f {
				segs = append(segs, seg{string(rune('a' + i)), x[0], x[1]})
			}
			want := nestModel("root", segs).String()
			permute(len(f), func(p []int) bool {
				w.states++
				list := []tok.Segment{}
				for _, i := range p {
					list = append(list, tok.Segment{Info: segs[i].info, Token: tk(segs[i].from, segs[i].to)})
				}
				w.trans += int64(len(p))
				g := tok.BuildGraph("root", list)
				if got := treeOf(g.Root, 0).String(); got != want {
					w.Fail("order %v gives %s, expected %s", p, got, want)
					return false
				}
				return true
			})
		})
	})
	// large graphs
	sized(c, "sizes", "chains, flat and balanced graphs of 1..150 segments in 4 orders, each followed by clashing segments", 1, 150, c.quickOr(1025, 4097), func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("%d segments", n) }, func() {
			kinds := []func(i int) (int, int){
				func(i int) (int, int) { return i, 2*n - i },
				func(i int) (int, int) { return 2 * i, 2*i + 2 },
				func(i int) (int, int) { return 3*i + 1, 3*i + 2 },
				func(i int) (int, int) { return 10 * (i / 3), 10*(i/3) + 9 - 3*(i%3) },
				func(i int) (int, int) { return 0, i + 1 },
				func(i int) (int, int) { return 5, 9 },
			}
			for ki, k := range kinds {
				for ord := 0; ord < 4; ord++ {
					segs := []seg{}
					for i := 0; i < n; i++ {
						j := i
						switch ord {
						case 1:
							j = n - 1 - i
						case 2:
							j = i / 2
							if i%2 == 1 {
								j = n - 1 - i/2
							}
						case 3:
							j = (i*2 + 1) % n
							if n%2 == 0 {
								j = i ^ 1
								if j >= n {
									j = i
								}
							}
						}
						a, b := k(j)
						segs = append(segs, seg{fmt.Sprintf("s%d", i), a, b})
					}
					g := tok.NewGraph("r")
					for _, s := range segs {
						_, ok := g.Append(tok.Segment{Info: s.info, Token: tk(s.from, s.to)})
						w.trans++
						if !ok {
							w.Fail("kind %d order %d: %v is refused", ki, ord, s)
							return
						}
					}
					want := nestModel("r", segs).String()
					if got := treeOf(g.Root, 0).String(); got != want {
						w.Fail("kind %d order %d: %s, expected %s", ki, ord, got, want)
						return
					}
					// segments that clash with one of them leave it as it is
					for x := 0; x < 20 && x < 2*n; x++ {
						for _, d := range []int{2, 5, 2*n - 1} {
							y := iv{x, x + d}
							clash := false
							for _, s := range segs {
								if y.clashes(iv{s.from, s.to}) {
									clash = true
								}
							}
							if !clash {
								continue
							}
							w.trans++
							if _, ok := g.Append(tok.Segment{Info: "clash", Token: tk(y.a, y.b)}); ok {
								w.Fail("kind %d order %d: %v is accepted", ki, ord, y)
								return
							}
							if got := treeOf(g.Root, 0).String(); got != want {
								w.Fail("kind %d order %d: refused %v changes the graph to %s, expected %s", ki, ord, y, got, want)
								return
							}
						}
					}
				}
			}
		})
	})
}

func permute(n int, f func(p []int) bool) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return f(p)
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			if !rec(k + 1) {
				return false
			}
			p[k], p[i] = p[i], p[k]
		}
		return true
	}
	rec(0)
}

func graphHistory(w *W, toks []tok.Token, hist []int) {
	list := []tok.Segment{}
	for i, h := range hist {
		list = append(list, tok.Segment{Info: string(rune('a' + i)), Token: toks[h]})
	}
	segmentHistory(w, list)
}

func segmentHistory(w *W, hist []tok.Segment) {
	g := tok.NewGraph("root")
	acc := []seg{}
	before := ""
	list := []tok.Segment{}
	for i, s := range hist {
		list = append(list, s)
		a, b := ends(s.Token)
		clash := false
		for _, x := range acc {
			if (iv{a, b}).clashes(iv{x.from, x.to}) {
				clash = true
			}
		}
		g2, ok := g.Append(s)
		w.trans++
		if g2 != g {
			w.Fail("Append returns another graph")
			return
		}
		if ok == clash {
			w.Fail("history %v: %s accepted=%v, clashes=%v", list, s, ok, clash)
			return
		}
		if ok {
			acc = append(acc, seg{s.Info, a, b})
		}
		// the last call decides; the calls before are the last ones of shorter histories
		if i < len(hist)-2 {
			continue
		}
		t := treeOf(g.Root, 0)
		now := t.String()
		if !ok && i == len(hist)-1 && now != before {
			w.Fail("history %v: refused %s changes the graph from %s to %s", list, s, before, now)
			return
		}
		before = now
		if i < len(hist)-1 {
			continue
		}
		if msg := treeInvariants(t, acc); msg != "" {
			w.Fail("history %v: %s in %s", list, msg, now)
			return
		}
		if t.info != "root" {
			w.Fail("the root is %s", t.info)
		}
		if !ambiguousNest(acc) {
			w.Out("unique shape")
			if want := nestModel("root", acc).String(); want != now {
				w.Fail("history %v: %s, expected %s", list, now, want)
				return
			}
		}
		if b := tok.BuildGraph("root", list); !b.Equal(g) {
			w.Fail("history %v: BuildGraph gives another graph %s than Append %s", list, treeOf(b.Root, 0), now)
		}
	}
}

// ---------------------------------------------------------------------- C20

func flame(b *strings.Builder, prefix string, i int, n *tnode) {
	line := prefix + fmt.Sprintf("%d.%s[%d-%d)", i, n.info, n.a, n.b)
	fmt.Fprintf(b, "%s %d\n", line, n.b-n.a)
	for j, s := range n.sub {
		flame(b, line+";", j+1, s)
	}
}

func leafsOf(n *tnode, res *[]seg) {
	if len(n.sub) == 0 {
		*res = append(*res, seg{n.info, n.a, n.b})
		return
	}
	for _, s := range n.sub {
		leafsOf(s, res)
	}
}

func describeGraph(w *W, g *tok.Graph) {
	t := treeOf(g.Root, 0)
	before := t.String()
	b := &strings.Builder{}
	flame(b, "", 1, t)
	w.trans += 2
	if got := g.FlameStack(); got != b.String() {
		w.Fail("FlameStack of %s is\n%s expected\n%s", t, got, b)
		return
	}
	want := []seg{}
	leafsOf(t, &want)
	if got := segsOf(g.Leafs()); !sameSegs(got, want) {
		w.Fail("Leafs of %s are %v, expected %v", t, got, want)
		return
	}
	if treeOf(g.Root, 0).String() != before {
		w.Fail("the graph %s was changed", before)
	}
}

func nodeOf(t *tnode) *tok.Node {
	n := &tok.Node{Segment: tok.Segment{Info: t.info, Token: tk(t.a, t.b)}}
	for _, s := range t.sub {
		n.Nodes = append(n.Nodes, nodeOf(s))
	}
	return n
}

// trees lists all ordered trees with n nodes, preorder.
func treeShapes(n int) []*tnode {
	if n == 1 {
		return []*tnode{{}}
	}
	res := []*tnode{}
	for _, f := range forests(n - 1) {
		res = append(res, &tnode{sub: f})
	}
	return res
}

func forests(n int) [][]*tnode {
	if n == 0 {
		return [][]*tnode{nil}
	}
	res := [][]*tnode{}
	for k := 1; k <= n; k++ {
		for _, t := range treeShapes(k) {
			for _, f := range forests(n - k) {
				res = append(res, append([]*tnode{t}, f...))
			}
		}
	}
	return res
}

func label(t *tnode, next *int, info func(i int) string) (int, *tnode) {
	i := *next
	*next++
	c := &tnode{info: info(i), a: *next}
	if len(t.sub) == 0 {
		*next++
	}
	for _, s := range t.sub {
		_, x := label(s, next, info)
		c.sub = append(c.sub, x)
	}
	c.b = *next
	return i, c
}

// same gives all nodes the same range and the same info.
func same(t *tnode, info, leaf string) *tnode {
	n := &tnode{info: info, a: 1, b: 4}
	if len(t.sub) == 0 {
		n.info = leaf
	}
	for _, s := range t.sub {
		n.sub = append(n.sub, same(s, info, leaf))
	}
	return n
}

func checkC20(c *Ctx) {
	toks := allTokens(4)
	depth := c.quickOr(5, 6)
	n := len(toks)
	c.Phase("graphs", fmt.Sprintf("graphs of all sequences of up to %d appends of 15 segments", depth), n*n, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("appends beginning with %s %s", toks[u/n], toks[u%n]) }, func() {
			var walk func(list []tok.Segment)
			walk = func(list []tok.Segment) {
				if w.failed {
					return
				}
				w.states++
				describeGraph(w, tok.BuildGraph("g", list))
				equal := make([]tok.Segment, len(list))
				for i, s := range list {
					equal[i] = tok.Segment{Info: "x", Token: s.Token}
				}
				describeGraph(w, tok.BuildGraph("x", equal))
				for i := range equal {
					equal[i].Info = ""
				}
				describeGraph(w, tok.BuildGraph("", equal))
				if len(list) < depth {
					for _, t := range toks {
						walk(append(list[:len(list):len(list)], tok.Segment{Info: string(rune('a' + len(list))), Token: t}))
					}
				}
			}
			walk([]tok.Segment{{Info: "a", Token: toks[u/n]}, {Info: "b", Token: toks[u%n]}})
		})
	})
	shapes := []*tnode{}
	for k := 1; k <= c.quickOr(9, 11); k++ {
		shapes = append(shapes, treeShapes(k)...)
	}
	c.Phase("trees", fmt.Sprintf("all %d ordered trees of up to %d nodes, infos with separators", len(shapes), c.quickOr(9, 11)), len(shapes), func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("tree %d", u) }, func() {
			for _, f := range []func(i int) string{func(i int) string { return fmt.Sprintf("n%d", i) }, func(i int) string { return "" }, func(i int) string { return strangeInfos[(i+u)%len(strangeInfos)] }} {
				next := 0
				_, t := label(shapes[u], &next, f)
				describeGraph(w, &tok.Graph{Root: nodeOf(t)})
			}
			// all nodes equal, and equal except for the leafs
			describeGraph(w, &tok.Graph{Root: nodeOf(same(shapes[u], "n", "n"))})
			describeGraph(w, &tok.Graph{Root: nodeOf(same(shapes[u], "n", "m"))})
		})
	})
	sized(c, "long", "flat and deep graphs of 1..200 nodes", 1, 200, c.quickOr(1025, 4097), func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("%d nodes", u+1) }, func() {
			flat, deep := &tnode{info: "r", b: 9000}, &tnode{info: "r", b: 9000}
			d := deep
			for i := 0; i <= u; i++ {
				flat.sub = append(flat.sub, &tnode{info: "x", a: i, b: i + 1})
				x := &tnode{info: "x", a: i, b: 9000}
				d.sub = []*tnode{x}
				d = x
			}
			describeGraph(w, &tok.Graph{Root: nodeOf(flat)})
			describeGraph(w, &tok.Graph{Root: nodeOf(deep)})
		})
	})
	// Equal on all pairs
	small := []*tnode{}
	for k := 1; k <= c.quickOr(4, 5); k++ {
		for _, s := range treeShapes(k) {
			for v := 0; v < k*3+1; v++ {
				// change one node
				next := 0
				_, t := label(s, &next, func(i int) string { return "n" })
				if v > 0 {
					i := 0
					var walk func(n *tnode)
					walk = func(n *tnode) {
						if i == (v-1)/3 {
							switch (v - 1) % 3 {
							case 0:
								n.info = "m"
							case 1:
								n.a--
							case 2:
								n.b++
							}
						}
						i++
						for _, x := range n.sub {
							walk(x)
						}
					}
					walk(t)
				}
				small = append(small, t)
			}
		}
	}
	c.Phase("equal", fmt.Sprintf("Equal on all pairs of %d trees: all shapes of up to %d nodes, also with one node changed", len(small), c.quickOr(4, 5)), len(small), func(w *W, u int) {
		w.Case(func() string { return "tree " + small[u].String() }, func() {
			a := &tok.Graph{Root: nodeOf(small[u])}
			for _, y := range small {
				b := &tok.Graph{Root: nodeOf(y)}
				want := small[u].String() == y.String()
				w.trans++
				if a.Equal(b) != want || a.Root.Equal(b.Root) != want {
					w.Fail("Equal with %s is %v", y, a.Equal(b))
					return
				}
			}
		})
	})
	// nodes folded into the info of another one, as the texts of a graph show them
	c.Phase("equal-folded", "Equal of every tree of up to 6 nodes and of the same tree with a part folded into the info of one node (8 separators, the lines of the flame stack)", 6, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("trees of %d nodes", u+1) }, func() {
			for _, s := range treeShapes(u + 1) {
				for _, t := range []*tnode{same(s, "n", "n"), same(s, "n", "m"), same(s, "", "")} {
					a := &tok.Graph{Root: nodeOf(t)}
					for _, y := range folded(t, a.FlameStack()) {
						b := &tok.Graph{Root: nodeOf(y)}
						w.trans++
						if a.Equal(b) || b.Equal(a) || a.Root.Equal(b.Root) {
							w.Fail("%s is Equal to %q", t, y)
							return
						}
					}
				}
			}
		})
	})
}

// folded lists the trees that have less nodes than t, but show the same text:
// a part of the nodes is written into the info of one of them.
func folded(t *tnode, flame string) []*tnode {
	res := []*tnode{}
	text := func(n *tnode) string { return n.info + tk(n.a, n.b).String() }
	// one node is replaced by some other
	var replace func(n, old *tnode, by []*tnode, drop int) *tnode
	replace = func(n, old *tnode, by []*tnode, drop int) *tnode {
		if n == old {
			return by[0]
		}
		c := &tnode{info: n.info, a: n.a, b: n.b}
		for i := 0; i < len(n.sub); i++ {
			c.sub = append(c.sub, replace(n.sub[i], old, by, drop))
			if n.sub[i] == old {
				i += drop
			}
		}
		return c
	}
	var all func(n *tnode, l []*tnode) []*tnode
	all = func(n *tnode, l []*tnode) []*tnode {
		l = append(l, n)
		for _, x := range n.sub {
			l = all(x, l)
		}
		return l
	}
	fold := func(l []*tnode, sep string) *tnode {
		parts := []string{}
		for _, x := range l[:len(l)-1] {
			parts = append(parts, text(x))
		}
		last := l[len(l)-1]
		return &tnode{info: strings.Join(append(parts, last.info), sep), a: last.a, b: last.b}
	}
	lines := strings.Split(strings.TrimSuffix(flame, "\n"), "\n")
	nodes := all(t, nil)
	for i, n := range nodes {
		sub := all(n, nil)
		for _, sep := range []string{"", ";", " ", ",", "\n", "\x00", "/", ";1."} {
			if len(sub) > 1 {
				res = append(res, replace(t, n, []*tnode{fold(sub, sep)}, 0))
			}
			for k := 1; k < len(n.sub); k++ {
				if len(n.sub[k-1].sub) == 0 {
					x := fold(n.sub[k-1:k+1], sep)
					x.sub = n.sub[k].sub
					res = append(res, replace(t, n.sub[k-1], []*tnode{x}, 1))
				}
			}
		}
		// the lines of the nodes of this part as one line
		if len(sub) > 1 && len(lines) == len(nodes) {
			l := strings.Join(lines[i:i+len(sub)], "\n")
			head := lines[i][:strings.LastIndex(lines[i], text(n))]
			last := sub[len(sub)-1]
			if end := strings.LastIndex(l, tk(last.a, last.b).String()); strings.HasPrefix(l, head) && end >= len(head) {
				res = append(res, replace(t, n, []*tnode{{info: l[len(head):end], a: last.a, b: last.b}}, 0))
			}
		}
	}
	return res
}
