package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func init() {
	register("C23", "all texts up to a bound over the MXT symbols, and all compositions of chunks with and without comment, salt and decoy lines; names, contents and consumed text compared with a reference parser", checkC23)
}

// ---------------------------------------------------------- reference parser

type mxtItem struct {
	kind     string // name, content, empty
	from, to int
}

type mxtRes struct {
	ok    bool
	end   int
	items []mxtItem // names and contents
	all   []mxtItem // everything that can be picked, in order of completion
	// name of a chunk that was begun after the last complete one
	abandoned *mxtItem
}

// line break at p: its length or 0
func nlAt(t string, p int) int {
	if has(t, p, "\n") {
		return 1
	}
	if has(t, p, "\r\n") {
		return 2
	}
	return 0
}

func wordEnd(t string, p int) int {
	for p < len(t) {
		r, n := utf8.DecodeRuneInString(t[p:])
		if r < 0x21 {
			break
		}
		p += n
	}
	return p
}

func spaceEnd(t string, p int) int {
	for p < len(t) && t[p] == ' ' {
		p++
	}
	return p
}

// mxtHeader returns the end of a header at p, its name and its salt.
func mxtHeader(t string, p int) (end int, name *mxtItem, salt string, parts []mxtItem, ok bool) {
	start := p
	if !has(t, p, "//") {
		return
	}
	p = wordEnd(t, p+2)
	parts = append(parts, mxtItem{"marker", start, p})
	q := spaceEnd(t, p)
	if q == p {
		return
	}
	p = q
	q = wordEnd(t, p)
	if q == p {
		return
	}
	name = &mxtItem{"name", p, q}
	// the first arrow behind the name; it ends its word
	i := strings.Index(t[q:], "-->")
	if i < 0 {
		return
	}
	p = q + i + 3
	a := q + i
	for a > q && t[a-1] >= 0x21 {
		a--
	}
	parts = append(parts, *name, mxtItem{"comment", q, a}, mxtItem{"arrow", a, p})
	q = spaceEnd(t, p)
	if q > p {
		e := wordEnd(t, q)
		salt = t[q:e]
		e = spaceEnd(t, e)
		parts = append(parts, mxtItem{"salt", p, e})
		p = e
	}
	return p, name, salt, append(parts, mxtItem{"header", start, p}), true
}

func mxtParse(t string) (res mxtRes) {
	p := 0
	for first := true; ; first = false {
		if !first {
			n := nlAt(t, p)
			if n == 0 {
				return
			}
			p += n
		}
		start := p
		end, name, salt, parts, ok := mxtHeader(t, p)
		if !ok {
			res.abandoned = name
			return
		}
		next := func(q int) bool {
			n := nlAt(t, q)
			return n > 0 && has(t, q+n, "//"+salt)
		}
		switch {
		case end == len(t) || next(end):
			res.items = append(res.items, *name, mxtItem{"empty", end, end})
			p = end
		case nlAt(t, end) > 0:
			from := end + nlAt(t, end)
			q := from
			for q < len(t) && !next(q) {
				_, n := utf8.DecodeRuneInString(t[q:])
				q += n
			}
			res.items = append(res.items, *name, mxtItem{"content", from, q})
			p = q
		default:
			res.abandoned = name
			return
		}
		res.all = append(append(res.all, parts...), res.items[len(res.items)-1], mxtItem{"chunk", start, p})
		res.ok = true
		res.end = p
	}
}

// ------------------------------------------------------------------ the check

func sameItems(a, b []mxtItem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func judgeMXT(w *W, t string) {
	want := mxtParse(t)
	w.states++
	w.trans++
	// picks
	g := grammar.MXT()
	s := tok.NewScanner(t)
	b := s.NewBasket()
	b.PickWith(&g.Marker, &g.Name, &g.Comment, &g.Arrow, &g.Salt, &g.Header, &g.Content, &g.EmptyContent, &g.Chunk, &g.Chunks)
	calls := []mxtItem{}
	add := func(kind string) func(tok.Token) {
		return func(k tok.Token) {
			f, e := ends(k)
			calls = append(calls, mxtItem{kind, f, e})
		}
	}
	g.Name.Map(add("name"))
	g.Content.Map(add("content"))
	g.EmptyContent.Map(add("empty"))
	err := s.Use(g)
	if (err == nil) != want.ok || int(s.Mark()) != want.end {
		w.Fail("error %v at %d, expected ok=%v at %d", err, s.Mark(), want.ok, want.end)
		return
	}
	if !want.ok {
		return
	}
	picked := []mxtItem{}
	for _, x := range segsOf(b.Picked()) {
		k := x.info
		if k == "empty-content" {
			k = "empty"
		}
		picked = append(picked, mxtItem{k, x.from, x.to})
	}
	full := append(want.all, mxtItem{"chunks", 0, want.end})
	if !sameItems(picked, full) {
		w.Fail("picked %v, expected %v", picked, full)
		return
	}
	// map calls: the same, maybe with the name of a chunk that was not completed
	n := len(want.items)
	if len(calls) < n || !sameItems(calls[:n], want.items) {
		w.Fail("map calls %v, expected %v", calls, want.items)
		return
	}
	for _, x := range calls[n:] {
		if want.abandoned == nil || x != *want.abandoned {
			w.Fail("map calls %v, expected %v", calls, want.items)
			return
		}
	}
}

func checkC23(c *Ctx) {
	hugeMXT(c)
	grammarPlaces(c, 1, true)
	syms := []string{"//", "-->", " ", "\n", "\r\n", "a", "S", "-", ">"}
	n := c.quickOr(6, 7)
	over := func(name, bound string, heads []string, rests func(h string) []string) {
		overList(c, name, bound, heads, 1, func(w *W, h string) {
			w.Case(func() string { return fmt.Sprintf("texts beginning with %q", h) }, func() {
				for _, x := range rests(h) {
					if w.failed {
						return
					}
					w.note = fmt.Sprintf("%q", h+x)
					judgeMXT(w, h+x)
				}
			})
		})
	}
	heads := textsExact(syms, 2)
	over("texts", fmt.Sprintf("all texts of up to %d of 9 symbols", n), heads, func(h string) []string { return texts(syms, n-2) })
	// behind a complete beginning
	begin := []string{"// a -->", "// a --> S", "// a --> ", "// a -->\n", "// a --> S\n", "// a --> S\r\n", "// a -->\r\nx", "// a\n", "//-", "// a --> S\n//S b -->", "// a --> S\n//S b -->\n", "// a --> S\n//S b --> ", "// a -->\n// b --> S\n", "// a b ", "// ä\n// c "}
	m := c.quickOr(4, 5)
	more := []string{"//", "-->", " ", "\n", "\r\n", "x", "S", "/", "b", "\r", "ä", "\xff"}
	over("behind", fmt.Sprintf("15 beginnings followed by all texts of up to %d of 12 symbols", m), begin, func(h string) []string { return texts(more, m) })
	// compositions
	names := []string{"a", "name.txt", "-->", "a-->", "ä€"}
	marks := []string{"//", "//--", "//S", "///"}
	gaps := []string{" ", "   "}
	cmts := []string{" ", "\n", " c ", "\n// c\n", " x->y\r\n ", "\n\n//S "}
	arrows := []string{"-->", "---->", "x-->", "<!-->", "-- -->", "-->>"}
	salts := []string{"", " ", " S", " S ", "  //", " -", " SS", " S T"}
	conts := []string{"", "\n", "\r\n", "\nx", "\nx\n", "\n\n\n", "\r\nx\r\ny", "\n//x", "\n//S", "\n\n//S", "\nx\n// y\nz", "\nx\n//S", "\n//SS q", "\n/ /\n", "\n-->"}
	type chunk = string
	chunks := func(ns, ms, gs, cs, as, ss, xs []string) []chunk {
		res := []chunk{}
		for _, a := range ms {
			for _, b := range gs {
				for _, d := range ns {
					for _, e := range cs {
						for _, f := range as {
							for _, g := range ss {
								for _, h := range xs {
									res = append(res, a+b+d+e+f+g+h)
								}
							}
						}
					}
				}
			}
		}
		return res
	}
	all := chunks(names, marks, gaps, cmts, arrows, salts, conts)
	overList(c, "chunks", fmt.Sprintf("%d chunks: 4 markers, 2 gaps, 5 names, 6 comments, 6 arrows, 8 salts, 15 contents", len(all)), all, 256, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%q", t) }, func() { judgeMXT(w, t) })
	})
	few := chunks([]string{"a"}, []string{"//", "//S", "//SS"}, []string{" "}, []string{" ", "\n//S "}, []string{"-->"}, []string{"", " ", " S", " SS"}, []string{"", "\n", "\nx", "\n//y", "\n//S z", "\r\nx\r\n", "\n\n", "\nx\n//SSS"})
	seps := []string{"\n", "\r\n", ""}
	overList(c, "two-chunks", fmt.Sprintf("all pairs of %d chunks with 3 separators", len(few)), few, 1, func(w *W, a string) {
		w.Case(func() string { return fmt.Sprintf("texts beginning with %q", a) }, func() {
			for _, s := range seps {
				for _, b := range few {
					if w.failed {
						return
					}
					w.note = fmt.Sprintf("%q", a+s+b)
					judgeMXT(w, a+s+b)
				}
			}
		})
	})
	three := chunks([]string{"a"}, []string{"//", "//S"}, []string{" "}, []string{" "}, []string{"-->"}, []string{"", " ", " S"}, []string{"", "\nx", "\n//y", "\n"})
	k := 3
	if c.thorough {
		k = 4
	}
	overList(c, "more-chunks", fmt.Sprintf("all sequences of %d of %d chunks", k, len(three)), three, 1, func(w *W, a string) {
		w.Case(func() string { return fmt.Sprintf("texts beginning with %q", a) }, func() {
			var walk func(t string, d int)
			walk = func(t string, d int) {
				if w.failed {
					return
				}
				w.note = fmt.Sprintf("%q", t)
				judgeMXT(w, t)
				if d < k {
					for _, b := range three {
						walk(t+"\n"+b, d+1)
					}
				}
			}
			walk(a, 1)
		})
	})
	sized(c, "sizes", "1..150 chunks, salts, contents, names and comments of 1..150 runes or lines", 1, 150, c.quickOr(1025, 4097), func(w *W, n int) {
		rep := strings.Repeat
		w.Case(func() string { return fmt.Sprintf("size %d", n) }, func() {
			for _, t := range []string{
				"// a -->\nx" + rep("\n// b -->\ny", n), "// a --> S\nx" + rep("\n//S b --> S\n// no", n), "// a -->" + rep("\n// b -->", n), "// a --> " + rep("S", n) + "\n//" + rep("S", n-1) + "\n//" + rep("S", n) + " b -->",
				"// a --> " + rep("S", n) + "\n//" + rep("S", n+1) + " b -->", "// " + rep("ä", n) + " -->\n" + rep("x\n", n), "// a" + rep(" c\n", n) + "-->\nx", "//" + rep("-", n) + " a " + rep("-", n) + "-->\nx" + rep("\n/", n),
				"// a -->" + rep(" ", n) + "\nx" + rep("\r\n", n) + "//" + rep(" ", n) + "b -->", "// a -->\n" + rep("/", n) + "\n" + rep("/", n) + " b -->", rep("// a -->\n", n), rep("// a --> S\n", n) + "//S b -->",
			} {
				w.note = fmt.Sprintf("%q", t)
				judgeMXT(w, t)
			}
		})
	})
	block := c.quickOr(1<<10, 1<<8)
	places := []string{"//% % % x%--> %\n%\n//% b -->", "// % -->\nx", "//% a -->\nx", "// a % -->\nx", "// a -->\n%", "// a --> %\nx\n//% b -->", "// a %-->\nx", "// a -->%\nx"}
	c.Phase("runes", "every rune in the place of name, marker, comment, content and salt and in the arrow together; every rune below U+3100 (thorough: every rune) in each place alone", (utf8.MaxRune+1)/block, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("runes from %U", u*block) }, func() {
			for r := rune(u * block); r < rune((u+1)*block); r++ {
				list := places
				if !c.thorough && r > 0x3100 && r < utf8.MaxRune && r != 0xFFFD {
					list = places[:1]
				}
				for _, p := range list {
					if w.failed {
						return
					}
					t := strings.ReplaceAll(p, "%", string(r))
					w.note = fmt.Sprintf("%q", t)
					judgeMXT(w, t)
				}
			}
		})
	})
	total := 0
	for _, d := range mxtDocs {
		total += len(d)
	}
	c.Phase("bytes", "every byte at every place of the documents, every insertion", total, func(w *W, u int) {
		d := ""
		for _, x := range mxtDocs {
			if u < len(x) {
				d = x
				break
			}
			u -= len(x)
		}
		w.Case(func() string { return fmt.Sprintf("document %q changed at %d", d, u) }, func() {
			for b := 0; b < 256; b++ {
				for _, t := range []string{d[:u] + string([]byte{byte(b)}) + d[u+1:], d[:u] + string([]byte{byte(b)}) + d[u:]} {
					if w.failed {
						return
					}
					w.note = fmt.Sprintf("%q", t)
					judgeMXT(w, t)
				}
			}
		})
	})
	long := c.quickOr(16, 40)
	overList(c, "spans", fmt.Sprintf("%d documents: every span of up to %d characters removed, repeated once and twice, and exchanged with up to %d characters before it", len(mxtDocs), long, long), mxtDocs, 1, func(w *W, d string) {
		w.Case(func() string { return fmt.Sprintf("document %q", d) }, func() {
			spanChanges(strings.Split(d, ""), long, func(s []string) {
				if !w.failed {
					t := strings.Join(s, "")
					w.note = fmt.Sprintf("%q", t)
					judgeMXT(w, t)
				}
			})
		})
	})
}
