package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// jsonDialects: what is not JSON, but known from other notations.
func jsonDialects(c *Ctx) {
	us := []string{"4", "f", "G", "{", "}", `"`, "+", "-", "u", `\`, "x", " "}
	n := c.quickOr(5, 6)
	overList(c, "u-escapes", fmt.Sprintf("all texts of up to %d of 12 symbols in an u escape", n), texts(us, n), 4096, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("escape u%s", t) }, func() {
			g := jsonPool.Get().(*grammar.JSONReader)
			w.trans++
			judgeJSON(w, g, `"\u`+t+`"`, false)
			jsonPool.Put(g)
		})
	})
	ext := []string{"//c\n", "/*c*/", "#c\n", "'a'", "a", "$a", "0x1F", "0b1", "0o7", "1_0", "1n", "+1", ".5", "5.", "1.e1", "1e", "01", "NaN", "Infinity", "-Infinity", "-", "undefined", "True", "NULL", "nil", "None",
		"\"a\\\nb\"", `"\x41"`, `"\'"`, `"\0"`, `"\v"`, `"\U00000041"`, `"\a"`, "\"\t\"", "`a`", `"""a"""`, ";", "=", "=>", "(", ")", "<", "\v", "\u00a0", "\u2028", "\ufeff", "\x00", "...", "@", "!", "%", "&", "*", "|", "~", "1f", "1L", "1d", "1:1", "2024-01-01", "tru", "truex", "nullnull"}
	plain := []string{"{", "}", "[", "]", ":", ",", `"a"`, "1", " "}
	frames := []string{"?", "[?]", "[?", "[?,1]", "[1,?]", "[1?]", "[1?,1]", "{?}", `{"a":?}`, `{?:1}`, `{"a"?:1}`, `{"a":1?}`, `{"a":1,?}`, `{"a":1,?:2}`, "?1", "1?", " ? ", `[[?],?]`, `{"a":{?:1}}`, `[{"a":[?]}]`}
	parts := append(append([]string{}, ext...), plain...)
	overList(c, "dialects", fmt.Sprintf("%d pieces of other notations, alone and next to up to two other pieces, at %d places", len(ext), len(frames)), ext, 1, func(w *W, x string) {
		w.Case(func() string { return fmt.Sprintf("%q", x) }, func() {
			g := grammar.JSON()
			list := []string{x}
			for _, a := range parts {
				list = append(list, x+a, a+x)
				for _, b := range plain {
					list = append(list, a+x+b, b+x+a, x+a+b)
				}
			}
			for _, f := range frames {
				for _, m := range list {
					t := strings.ReplaceAll(f, "?", m)
					w.states++
					w.trans++
					w.note = fmt.Sprintf("%q", t)
					judgeJSON(w, g, t, false)
				}
			}
		})
	})
}

// wrapLayers: readers below several layers of Map, Named, Pick and Monitor,
// compared with the reader without them.
func wrapLayers(c *Ctx) {
	base := []struct {
		name string
		make func() tok.Reader
	}{
		{"Lit(a)", func() tok.Reader { return tok.Lit("a") }},
		{"Lit()", func() tok.Reader { return tok.Lit("") }},
		{"Opt(a)", func() tok.Reader { return tok.Opt('a') }},
		{"Zom(a)", func() tok.Reader { return tok.Zom('a') }},
		{"Many(a)", func() tok.Reader { return tok.Many("a") }},
		{"At(a)", func() tok.Reader { return tok.At(tok.Rune('a')) }},
		{"AtEnd", func() tok.Reader { return tok.AtEnd() }},
		{"Seq(a,b)", func() tok.Reader { return tok.Seq("a", "b") }},
		{"Not(a)", func() tok.Reader { return tok.Not(tok.Lit("a")) }},
		{"Any(ab,a)", func() tok.Reader { return tok.Any("ab", "a") }},
		{"To(b)", func() tok.Reader { return tok.To("b") }},
		{"Past(b)", func() tok.Reader { return tok.Past("b") }},
		{"Body", func() tok.Reader { return tok.Body(tok.Zom("a"), tok.Lit("b")) }},
		{"BodyTail", func() tok.Reader { return tok.BodyTail(tok.Zom("a"), tok.Lit("b")) }},
		{"Times(2)", func() tok.Reader { return tok.Times(2, tok.Lit("a")) }},
		{"SkipSeq", func() tok.Reader { return tok.SkipSeq(tok.Zom("b"), "a") }},
		{"Fold", func() tok.Reader { return tok.Fold("A") }},
		{"Int", func() tok.Reader { return tok.Int(16, 8) }},
		{"Bool", func() tok.Reader { return tok.Bool("") }},
		{"Rule", func() tok.Reader { return &tok.Rule{Name: "r", Reader: tok.Opt("a")} }},
		{"Wrap", func() tok.Reader { return tok.Wrap("w", func(s *tok.Scanner) error { s.WhileRune('a'); return nil }) }},
		{"Invalid", func() tok.Reader { return tok.Seq(1.5) }},
	}
	around := []struct {
		name string
		make func(r tok.Reader) tok.Reader
	}{
		{"alone", func(r tok.Reader) tok.Reader { return r }},
		{"Zom", func(r tok.Reader) tok.Reader { return tok.Zom(r) }},
		{"Many", func(r tok.Reader) tok.Reader { return tok.Many(r) }},
		{"Opt", func(r tok.Reader) tok.Reader { return tok.Opt(r) }},
		{"Seq", func(r tok.Reader) tok.Reader { return tok.Seq(r, "b", r) }},
		{"Any", func(r tok.Reader) tok.Reader { return tok.Any(tok.Seq(r, "x"), r, "b") }},
		{"At", func(r tok.Reader) tok.Reader { return tok.At(r) }},
		{"Not", func(r tok.Reader) tok.Reader { return tok.Not(r) }},
		{"To", func(r tok.Reader) tok.Reader { return tok.To(r) }},
		{"Past", func(r tok.Reader) tok.Reader { return tok.Past(r) }},
		{"SkipSeq", func(r tok.Reader) tok.Reader { return tok.SkipSeq(r, "b") }},
	}
	layers := texts([]string{"M", "N", "P", "L"}, c.quickOr(4, 6))
	list := texts([]string{"a", "b"}, 3)
	c.Phase("layers", fmt.Sprintf("%d readers below all sequences of up to %d of Map, Named, Pick and Monitor, in %d combinators; %d texts", len(base), c.quickOr(4, 6), len(around), len(list)), len(base)*len(around), func(w *W, u int) {
		b, ar := base[u%len(base)], around[u/len(base)]
		for _, l := range layers {
			w.Case(func() string { return fmt.Sprintf("%s(%s) with the layers %s", ar.name, b.name, l) }, func() {
				for _, t := range list {
					// what happens without the layers
					type try struct {
						enter, exit int
						ok          bool
					}
					tries := []try{}
					plain := b.make()
					count := tok.Wrap(plain.What(), func(s *tok.Scanner) error {
						x := try{enter: int(s.Mark())}
						err := plain.Read(s)
						x.exit, x.ok = int(s.Mark()), err == nil
						tries = append(tries, x)
						return err
					})
					s0 := tok.NewScanner(t)
					err0 := ar.make(count).Read(s0)
					s := tok.NewScanner(t)
					calls := [8][]tok.Token{}
					logs := [8]*tok.Log{}
					r := b.make()
					for i := range l {
						switch l[i] {
						case 'M':
							i := i
							r = tok.Map(r, func(x tok.Token) { calls[i] = append(calls[i], x) })
						case 'N':
							r = tok.Named("n", r)
						case 'P':
							r = tok.Pick(r, &tok.Basket{}, "p")
						case 'L':
							logs[i] = &tok.Log{}
							r = tok.Monitor(r, logs[i], "l")
						}
					}
					err := ar.make(r).Read(s)
					w.trans++
					at := func(e error) int {
						if re, ok := e.(tok.ReadError); ok {
							return int(re.Marker)
						}
						return -1
					}
					if (err == nil) != (err0 == nil) || s.Mark() != s0.Mark() || at(err) != at(err0) {
						w.Fail("on %q: %v at %d, without the layers %v at %d", t, err, s.Mark(), err0, s0.Mark())
						return
					}
					want := []tok.Token{}
					for _, x := range tries {
						if x.ok {
							want = append(want, tok.MakeToken(tok.Marker(x.enter), tok.Marker(x.exit)))
						}
					}
					for i := range l {
						if l[i] == 'M' && fmt.Sprint(calls[i]) != fmt.Sprint(want) {
							w.Fail("on %q: Map (layer %d) was called with %v, expected %v", t, i+1, calls[i], want)
							return
						}
						if l[i] == 'L' {
							ok := len(logs[i].Entries) == len(tries)
							for k := 0; ok && k < len(tries); k++ {
								e, x := logs[i].Entries[k], tries[k]
								ok = e.EnterAt == x.enter && e.ExitAt == x.exit && (e.Error == nil) == x.ok && e.Level == 1 && e.Info == "l"
							}
							if !ok {
								w.Fail("on %q: the log (layer %d) is %v, expected %v", t, i+1, logs[i].Entries, tries)
								return
							}
						}
					}
				}
			})
		}
	})
}

// luaDialects: pieces of other languages and versions, and all of Lua, at every
// place of valid chunks.
func luaDialects(c *Ctx) {
	pieces := strings.Split("!=|&&|+=|++|**|?|!|->|=>|:=|?.|??|<>|===|@|$|`a`|continue|global|const|elif|else if|<const>|<close>|<a>|0b1|1_0|1LL|0x|/*c*/|// c\n|#c\n|--[==[|]==]|[==[|]]|[[|\\|\"|'|ä|\u00a0|;;|,,|....|=~|!==|()|{}|''|[[s]]|[1]|.b|:c()|:c|=1|=|,x|x|1|--|--[[c]]|--[=|<-|>>>|\\\n|#!x\n|::l::|goto|(x)|{1}|-|...|..|f()|function()|function(a) end|\v|\x00|\ufeff", "|")
	pieces = append(pieces, "|", "||", "|=", "\"\\e\"", "\"\\u0041\"", "'\\", "not", "and", "end", "do", "then", "return", "in", "until", "nil", "if", "else", "elseif", "local", "function", "while", "repeat", "for", "break", "goto", "true")
	docs := append([]string{}, luaSentences...)
	type place struct{ d, p int }
	places := []place{}
	for i, d := range docs {
		for p := 0; p <= len(d); p++ {
			if p == 0 || p == len(d) || !isLuaWord(d[p-1]) || !isLuaWord(d[p]) {
				places = append(places, place{i, p})
			}
		}
	}
	c.Phase("dialects", fmt.Sprintf("%d pieces (operators, words and comments of other languages, and of Lua) at every one of %d places between the tokens of %d chunks, with and without spaces", len(pieces), len(places), len(docs)), len(places), func(w *W, u int) {
		d, p := docs[places[u].d], places[u].p
		w.Case(func() string { return fmt.Sprintf("chunk %q changed at %d", d, p) }, func() {
			g := newLua(c)
			for _, x := range pieces {
				for _, t := range []string{d[:p] + x + d[p:], d[:p] + " " + x + " " + d[p:]} {
					if w.failed {
						return
					}
					if parenDepth(strings.Split(t, "")) <= 5 {
						readLua(w, g, t)
					}
				}
			}
		})
	})
}

func isLuaWord(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}
