package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func init() {
	register("C25", "all token sequences up to a bound over the tokens of Lua and over the tokens of each construct, all viable prefixes with every next token, all one-token changes of valid chunks, all spacings; compared with a scanner and recursive-descent recognizer written after the manual", checkC25,
		"texts that are only valid if tokens are cut other than by the longest match are not judged", "parentheses nested deeper than 5 (in long chunks 6) are not read (the grammar needs exponential time)")
}

// luaSubject is a grammar that is used for many texts.
type luaSubject struct {
	g     *grammar.LuaReader
	rules []*tok.Rule
	orig  []tok.Reader
	picks bool // compare the picks of valid chunks, not which chunks are valid
}

func newLua(c *Ctx) *luaSubject {
	l := &luaSubject{g: grammar.Lua(), picks: c.id == "C33"}
	l.rules = l.g.Grammar()
	for _, r := range l.rules {
		l.orig = append(l.orig, r.Reader)
	}
	return l
}

func readLua(w *W, g *luaSubject, t string) {
	w.states++
	want := luaJudge(t)
	if want == 0 {
		w.Out("not judged")
		return
	}
	if g.picks {
		if want > 0 {
			readLuaPicks(w, g, t, nil)
		}
		return
	}
	w.trans++
	s := tok.NewScanner(t)
	err := s.Use(g.g)
	got := err == nil && s.AtEnd()
	if got {
		w.Out("valid")
	} else {
		w.Out("invalid")
	}
	if got != (want > 0) {
		w.Fail("chunk %q: error %v, at %d of %d; valid chunk: %v", t, err, s.Mark(), len(t), want > 0)
	}
}

// parenDepth of a token sequence.
func parenDepth(seq []string) int {
	d, max := 0, 0
	for _, x := range seq {
		d += strings.Count(x, "(") - strings.Count(x, ")")
		if d > max {
			max = d
		}
		if d < 0 {
			d = 0
		}
	}
	return max
}

type luaTopic struct {
	name  string
	pre   string // begins the text
	post  string // ends the text
	toks  []string
	n, nT int // all sequences
	v, vT int // viable prefixes with each next token
	c, cT int // one-token changes of the valid ones up to this length
}

var luaAll = []string{"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while",
	"+", "-", "*", "/", "//", "%", "^", "#", "&", "~", "|", "<<", ">>", "..", "<", "<=", ">", ">=", "==", "~=", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".", "...", "::", "x", "1", "'s'"}

var luaTopics = []luaTopic{
	{name: "all", toks: luaAll, n: 3, nT: 3, v: 4, vT: 5, c: 0, cT: 3},
	{name: "return", pre: "return ", toks: luaAll, n: 2, nT: 3, v: 3, vT: 4, c: 0, cT: 3},
	{name: "expression", pre: "return ", toks: []string{"a", "1", "'s'", "nil", "...", "-", "not", "(", ")", "+", "..", "{", "}", "[", "]", ".", ":", ",", "=", "function() end"}, n: 4, nT: 4, v: 4, vT: 5, c: 3, cT: 4},
	{name: "assigned", pre: "x = ", toks: []string{"a", "1", "'s'", "-", "(", ")", "+", "{", "}", ".", ",", "=", ";"}, n: 4, nT: 5, v: 5, vT: 6, c: 4, cT: 5},
	{name: "argument", pre: "f( ", post: " )", toks: []string{"a", "1", "{}", "-", "(", ")", "and", ",", "...", ".", "=", "function() return end"}, n: 4, nT: 5, v: 0, vT: 0, c: 0, cT: 0},
	{name: "condition", pre: "if ", post: " then end", toks: []string{"a", "1", "not", "==", "(", ")", "or", "<", "[", "]", ":", "b()"}, n: 4, nT: 5, v: 0, vT: 0, c: 0, cT: 0},
	{name: "statements", toks: []string{"x = 1", "f()", "break", "goto l", "::l::", ";", "return", "return 1", "do", "end", "while x do", "repeat", "until x", "if x then", "elseif x then", "else", "for i = 1, 2 do", "for k in t do", "function f()", "local function f()", "local x"}, n: 3, nT: 4, v: 4, vT: 5, c: 2, cT: 3},
	{name: "functions", toks: []string{"function", "f", ".", ":", "(", ")", ",", "...", "end", "local", "return"}, n: 4, nT: 5, v: 8, vT: 9, c: 7, cT: 8},
	{name: "function-values", pre: "x = function ", toks: []string{"(", ")", "a", ",", "...", "end", "return", ";", "1"}, n: 4, nT: 5, v: 6, vT: 7, c: 5, cT: 6},
	{name: "for", toks: []string{"for", "i", "=", "1", ",", "in", "do", "end"}, n: 5, nT: 6, v: 10, vT: 11, c: 10, cT: 10},
	{name: "local", toks: []string{"local", "a", "<", ">", ",", "=", "1", ";"}, n: 5, nT: 6, v: 6, vT: 7, c: 5, cT: 6},
	{name: "tables", pre: "return { ", toks: []string{"{", "}", "[", "]", "a", "=", "1", ",", ";"}, n: 5, nT: 6, v: 6, vT: 7, c: 5, cT: 6},
	{name: "suffixes", toks: []string{"a", "(", ")", "[", "]", ".", ":", "'s'", "{", "}", "=", ",", "1"}, n: 4, nT: 5, v: 5, vT: 6, c: 4, cT: 5},
	{name: "suffixes-behind", pre: "return ( a )", toks: []string{"a", "(", ")", "[", "]", ".", ":", "'s'", "{}", ",", "1", "="}, n: 4, nT: 4, v: 4, vT: 5, c: 0, cT: 3},
	{name: "targets", pre: "a ", toks: []string{"b", ".", "[ 1 ]", "( )", ":", ",", "=", "2", "( c )", "'s'", "{ }"}, n: 4, nT: 5, v: 5, vT: 6, c: 4, cT: 5},
	{name: "labels", toks: []string{"::", "l", "goto", ":", "break", ";", "f()"}, n: 5, nT: 6, v: 0, vT: 0, c: 0, cT: 0},
	{name: "if", toks: []string{"if", "a", "then", "elseif", "else", "end", ";"}, n: 6, nT: 7, v: 9, vT: 10, c: 7, cT: 8},
	{name: "loops", toks: []string{"while", "a", "do", "end", "repeat", "until", "f()", "break"}, n: 5, nT: 6, v: 6, vT: 8, c: 5, cT: 7},
	{name: "returns", toks: []string{"return", ";", "1", ",", "do", "end", "f()", "a"}, n: 5, nT: 6, v: 6, vT: 7, c: 4, cT: 5},
	{name: "blocks", pre: "function f() ", post: " end", toks: []string{"return", ";", "1", "end", "do", "break", "local a", "a = 1", "else", "f()"}, n: 4, nT: 5, v: 0, vT: 0, c: 0, cT: 0},
}

func checkC25(c *Ctx) {
	hugeLua(c)
	grammarPlaces(c, 2, false)
	luaTopicPhases(c)
	luaOperators(c)
	luaSpacings(c)
	luaNames(c)
	luaDocuments(c)
	luaDialects(c)
	luaSpans(c)
	luaRunes(c)
	luaSizes(c)
	luaRules(c)
	luaScripts(c)
}

// luaRuleParsers read the occurrence of a rule, written after the manual.
var luaRuleParsers = map[string]func(p *luaParser){
	"exp":              func(p *luaParser) { p.exp() },
	"explist":          func(p *luaParser) { p.explist() },
	"block":            func(p *luaParser) { p.block() },
	"chunk":            func(p *luaParser) { p.block() },
	"script":           func(p *luaParser) { p.block() },
	"tableconstructor": func(p *luaParser) { p.table() },
	"funcargs":         func(p *luaParser) { p.args() },
	"funcbody":         func(p *luaParser) { p.body() },
	"funcdef":          func(p *luaParser) { p.need("function"); p.body() },
	"prefixexp":        func(p *luaParser) { p.suffixed() },
	"var":              func(p *luaParser) { p.suffixedAs("var") },
	"funccall":         func(p *luaParser) { p.suffixedAs("call") },
	"varlist": func(p *luaParser) {
		p.suffixedAs("var")
		for p.opt(",") {
			p.suffixedAs("var")
		}
	},
	"namelist": func(p *luaParser) {
		p.need("name")
		for p.opt(",") {
			p.need("name")
		}
	},
	"funcname": func(p *luaParser) {
		p.need("name")
		for p.opt(".") {
			p.need("name")
		}
		if p.opt(":") {
			p.need("name")
		}
	},
	"funcparams": func(p *luaParser) {
		for !p.opt("...") {
			p.need("name")
			if !p.opt(",") {
				break
			}
		}
	},
	"retstat": func(p *luaParser) {
		p.need("return")
		if !p.blockEnd() && !p.is(";") {
			p.explist()
		}
		p.opt(";")
	},
	"stat":      func(p *luaParser) { p.statAs("") },
	"label":     func(p *luaParser) { p.statAs("label") },
	"break":     func(p *luaParser) { p.statAs("break") },
	"goto":      func(p *luaParser) { p.statAs("goto") },
	"do":        func(p *luaParser) { p.statAs("do") },
	"while":     func(p *luaParser) { p.statAs("while") },
	"repeat":    func(p *luaParser) { p.statAs("repeat") },
	"ifelse":    func(p *luaParser) { p.statAs("ifelse") },
	"for":       func(p *luaParser) { p.statAs("for") },
	"foreach":   func(p *luaParser) { p.statAs("foreach") },
	"func":      func(p *luaParser) { p.statAs("func") },
	"localfunc": func(p *luaParser) { p.statAs("localfunc") },
	"localatt":  func(p *luaParser) { p.statAs("localatt") },
}

func (p *luaParser) suffixedAs(k string) {
	if p.suffixed() != k {
		p.bad()
	}
}

func (p *luaParser) statAs(k string) {
	if p.is("return") || p.blockEnd() {
		p.bad()
	}
	if got := p.stat(); k != "" && got != k {
		p.bad()
	}
}

func (p *luaParser) whole(f func(p *luaParser)) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(luaStatus); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f(p)
	return p.p == len(p.toks)
}

// luaRules: each rule of the grammar alone.
func luaRules(c *Ctx) {
	names := sortedKeys(luaRuleParsers)
	for _, tp := range luaTopics {
		tp := tp
		n := c.quickOr(3, 4)
		if len(tp.toks) > 30 {
			n = c.quickOr(2, 3)
		} else if len(tp.toks) <= 9 {
			n = c.quickOr(4, 5)
		}
		k := len(tp.toks)
		c.Phase("rules-"+tp.name, fmt.Sprintf("%d rules used alone on %q with all sequences of up to %d of %d tokens, %q", len(names), tp.pre, n, k, tp.post), k, func(w *W, u int) {
			w.Case(func() string { return fmt.Sprintf("sequences beginning with %q", tp.toks[u]) }, func() {
				rules := map[string]*tok.Rule{}
				for _, r := range grammar.Lua().Grammar() {
					rules[r.Name] = r
				}
				var walk func(seq []string)
				walk = func(seq []string) {
					if w.failed || parenDepth(seq) > 5 {
						return
					}
					for _, t := range uniq([]string{strings.Join(seq, " "), strings.TrimSpace(tp.pre + strings.Join(seq, " ") + tp.post)}) {
						readLuaRules(w, rules, names, t)
					}
					if len(seq) < n {
						for _, x := range tp.toks {
							walk(append(seq[:len(seq):len(seq)], x))
						}
					}
				}
				walk([]string{tp.toks[u]})
			})
		})
	}
}

func readLuaRules(w *W, rules map[string]*tok.Rule, names []string, t string) {
	toks, ok, risky := luaLex(t)
	if risky {
		return
	}
	w.states++
	for _, name := range names {
		want := ok && (&luaParser{toks: toks}).whole(luaRuleParsers[name])
		r := rules[name]
		if r == nil {
			w.Fail("there is no rule %s", name)
			return
		}
		s := tok.NewScanner(t)
		w.trans++
		err := s.Use(r)
		if got := err == nil && s.AtEnd(); got != want {
			w.Fail("rule %s on %q: error %v, at %d of %d; valid: %v", name, t, err, s.Mark(), len(t), want)
			return
		}
	}
}

// luaScripts: the rule for scripts allows a first line that begins with #!.
func luaScripts(c *Ctx) {
	firsts := append(texts([]string{"#", "!", "a", " ", "\n", "\r", "ä", "\xff", "="}, 4), "#!/usr/bin/lua\n", "#!/usr/bin/env lua\r\n", "#!lua --[[\n", "#!\n#!\n", "#!lua", "--\n#!lua\n")
	rest := []string{"", "x=1", " f() ", "return", "=", "\nx=1", "--c", "#!"}
	overList(c, "scripts", fmt.Sprintf("%d beginnings of a script, each with %d texts behind it", len(firsts), len(rest)), firsts, 200, func(w *W, f string) {
		g := grammar.Lua()
		for _, r := range rest {
			t := f + r
			w.Case(func() string { return fmt.Sprintf("script %q", t) }, func() {
				chunk, bang := t, -1
				if strings.HasPrefix(t, "#!") {
					bang = strings.IndexAny(t, "\r\n")
					if bang < 0 {
						bang = len(t)
					}
					chunk = t[bang:]
				}
				want := luaJudge(chunk)
				s := tok.NewScanner(t)
				w.trans += 2
				err := s.Use(&g.Script)
				if got := err == nil && s.AtEnd(); want != 0 && got != (want > 0) {
					w.Fail("rule script on %q: error %v, at %d of %d; valid: %v", t, err, s.Mark(), len(t), want > 0)
				}
				s = tok.NewScanner(t)
				err = s.Use(&g.SheBang)
				if (err == nil) != (bang >= 0) || err == nil && int(s.Mark()) != bang || err != nil && s.Mark() != 0 {
					w.Fail("rule SheBang on %q: error %v, at %d, expected the end at %d", t, err, s.Mark(), bang)
				}
			})
		}
	})
}

func luaTopicPhases(c *Ctx) {
	const maxDepth = 5
	for _, tp := range luaTopics {
		tp := tp
		text := func(seq []string) string { return tp.pre + strings.Join(seq, " ") + tp.post }
		n := c.quickOr(tp.n, tp.nT)
		k := len(tp.toks)
		c.Phase("sequences-"+tp.name, fmt.Sprintf("%q, all sequences of up to %d of %d tokens, %q", tp.pre, n, k, tp.post), k*k+1, func(w *W, u int) {
			head := []string{}
			if u > 0 {
				head = []string{tp.toks[(u-1)/k], tp.toks[(u-1)%k]}
			}
			w.Case(func() string { return fmt.Sprintf("sequences beginning with %q", text(head)) }, func() {
				g := newLua(c)
				var walk func(seq []string)
				walk = func(seq []string) {
					if w.failed || parenDepth(seq) > maxDepth {
						return
					}
					readLua(w, g, text(seq))
					if u == 0 && len(seq) == 1 || len(seq) >= n {
						return
					}
					for _, x := range tp.toks {
						walk(append(seq, x))
					}
				}
				walk(head)
			})
		})
		v := c.quickOr(tp.v, tp.vT)
		ch := c.quickOr(tp.c, tp.cT)
		if v == 0 {
			continue
		}
		// viable prefixes, distributed over units by their beginnings
		heads := [][]string{}
		var grow func(seq []string, d int)
		status := func(seq []string) luaStatus {
			toks, ok, _ := luaLex(text(seq))
			if !ok {
				return luaInvalid
			}
			return luaParse(toks)
		}
		grow = func(seq []string, d int) {
			if status(seq) == luaInvalid {
				return
			}
			if len(seq) == d {
				heads = append(heads, append([]string{}, seq...))
				return
			}
			for _, x := range tp.toks {
				grow(append(seq[:len(seq):len(seq)], x), d)
			}
		}
		grow(nil, 3)
		c.Phase("viable-"+tp.name, fmt.Sprintf("%q, all viable prefixes of 3 to %d of %d tokens with each next token, all one-token changes and span changes of the valid ones of up to %d tokens", tp.pre, v-1, k, ch), len(heads), func(w *W, u int) {
			w.Case(func() string { return fmt.Sprintf("sequences beginning with %q", text(heads[u])) }, func() {
				g := newLua(c)
				var walk func(seq []string)
				walk = func(seq []string) {
					if w.failed || parenDepth(seq) > maxDepth {
						return
					}
					st := status(seq)
					readLua(w, g, text(seq))
					if st == luaValid && len(seq) <= ch {
						luaChanges(tp.toks, seq, func(s []string) {
							if !w.failed && parenDepth(s) <= maxDepth {
								readLua(w, g, text(s))
							}
						})
						spanChanges(seq, 4, func(s []string) {
							if !w.failed && parenDepth(s) <= maxDepth {
								readLua(w, g, text(s))
							}
						})
					}
					if st == luaInvalid || len(seq) >= v {
						return
					}
					for _, x := range tp.toks {
						walk(append(seq[:len(seq):len(seq)], x))
					}
				}
				walk(heads[u])
			})
		})
	}
}

// luaChanges: all deletions, replacements, insertions and swaps of one token.
func luaChanges(toks, seq []string, f func(s []string)) {
	for i := 0; i <= len(seq); i++ {
		for _, x := range toks {
			s := append(append([]string{}, seq[:i]...), x)
			f(append(s, seq[i:]...))
			if i < len(seq) {
				s := append([]string{}, seq...)
				s[i] = x
				f(s)
			}
		}
		if i < len(seq) {
			f(append(append([]string{}, seq[:i]...), seq[i+1:]...))
		}
		if i+1 < len(seq) {
			s := append([]string{}, seq...)
			s[i], s[i+1] = s[i+1], s[i]
			f(s)
		}
	}
}

// luaOperators: all combinations of operators, with and without spaces.
// spanChanges: every span of 2 to n tokens removed, repeated once and twice, and
// exchanged with the tokens before it.
func spanChanges(seq []string, n int, f func(s []string)) {
	for i := 0; i < len(seq); i++ {
		f(splice(seq, i, i+1, seq[i], seq[i]))
		f(splice(seq, i, i+1, seq[i], seq[i], seq[i]))
		for j := i + 2; j <= len(seq) && j-i <= n; j++ {
			span := seq[i:j]
			f(splice(seq, i, j))
			two := append(append([]string{}, span...), span...)
			f(splice(seq, i, j, two...))
			f(splice(seq, i, j, append(two, span...)...))
			for k := 1; k <= n && k <= i; k++ {
				f(splice(seq, i-k, j, append(append([]string{}, span...), seq[i-k:i]...)...))
			}
		}
	}
}

// splice puts repl at the place of seq[i:j].
func splice(seq []string, i, j int, repl ...string) []string {
	res := append(append([]string{}, seq[:i]...), repl...)
	return append(res, seq[j:]...)
}

// luaSpans: changes of whole spans of tokens of documents.
func luaSpans(c *Ctx) {
	n := c.quickOr(6, 12)
	docs := append(append([]string{}, luaDocs...), luaSentences...)
	overList(c, "spans", fmt.Sprintf("%d documents: every span of up to %d tokens removed, repeated once and twice, and exchanged with up to %d tokens before it", len(docs), n, n), docs, 1, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
			g := newLua(c)
			spanChanges(luaWords(t), n, func(s []string) {
				if !w.failed && parenDepth(s) <= 5 {
					readLua(w, g, strings.Join(s, " "))
				}
			})
		})
	})
}

// luaRunes: every code point where a space, a name, an operator or a digit can be.
func luaRunes(c *Ctx) {
	const part = 0x200
	c.Phase("runes", "every code point (quick: below U+3100 and those that are ASCII in their lower 16 bits) in the place of a space, a letter, an operator and a digit", (utf8.MaxRune+1)/part, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("runes from %U", u*part) }, func() {
			g := newLua(c)
			for r := rune(u * part); r < rune((u+1)*part) && !w.failed; r++ {
				if !c.thorough && !plainOrCut(r) {
					continue
				}
				v := string(r)
				for _, t := range []string{v + "x=1", "x" + v + "=" + v + "1" + v, "return" + v + "1" + v + "y", "local " + v, "f" + v + "()", "goto " + v + "a", "--" + v + "\nf()"} {
					readLua(w, g, t)
				}
			}
		})
	})
}

func luaOperators(c *Ctx) {
	bins := []string{"+", "-", "*", "/", "//", "%", "^", "&", "~", "|", "<<", ">>", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"}
	no := []string{"=", "!=", "&&", "||", "!", "**", "<>", "->", "=>", "+=", "++", "===", "~~", "...", ".", ":", "in", "not", "#", "\\", "?", "@", "$", "`", "<=>", "AND", "xor"}
	uns := []string{"", "-", "not", "#", "~", "+", "!", "..", "- -", "not not", "- not", "~ #"}
	ops := append(append([]string{}, bins...), no...)
	vals := []string{"a", "1", "'s'", "nil", "true", "false", "...", "{}", "f()", "a.b", "(a)", "function() end", "0x1p4", "[[l]]", "a[1]", "a:m()", ".5"}
	overList(c, "operators", "all pairs of operators, 12 unary ones, 17 operands, with and without spaces", ops, 1, func(w *W, o string) {
		w.Case(func() string { return fmt.Sprintf("operator %q", o) }, func() {
			g := newLua(c)
			try := func(t string) {
				if !w.failed {
					readLua(w, g, t)
				}
			}
			for _, sp := range []string{" ", ""} {
				for _, u := range uns {
					for _, v := range uns {
						try("return " + u + sp + "a" + sp + o + sp + v + sp + "b")
					}
				}
				for _, o2 := range ops {
					try("x = a" + sp + o + sp + "b" + sp + o2 + sp + "c")
					try("x = a" + sp + o + sp + "1" + sp + o2 + sp + "'s'")
					try("x = a " + o + sp + o2 + " c")
				}
				for _, a := range vals {
					for _, b := range vals {
						try("if " + a + sp + o + sp + b + " then end")
					}
					try("x = " + o + sp + a)
					try("x = " + a + sp + o)
					try("return -" + a + sp + o + sp + "not " + a)
				}
			}
		})
	})
}

var luaSpaces = []string{" ", "\n", "\t", "\r\n", "\v", "\f", "  ", " \t\n\r\v\f ", "--c\n", "--\r", "--[[x]]", "--[==[\n]]]==]", " --[x\n ", "--[=x\n", "--a\n--b\n", "--[[a]]--[[b]]", "--end\n", "--[[\"]]", "--\"\n"}

// luaSentences: chunks that contain every construct, tokens separated by spaces.
var luaSentences = []string{
	"; ; break ; goto l :: l ::",
	"x = 1 y , z = 2 , 3",
	"a . b [ 1 ] . c = d",
	"f ( ) ( 1 ) . x = { }",
	"( f ) ( a , b ) : m 's' { } 'u'",
	"f 's' { 1 } ( ) [ 2 ] = 3",
	"do break end do end",
	"while x do f ( ) end",
	"repeat local a until a == 1 ;",
	"if a then elseif b then x = 1 elseif c then else break end",
	"for i = 1 , 2 do end for i = 1 , 2 , 3 do break end",
	"for k in t do end for k , v in pairs ( t ) , 1 do x = k end",
	"function a . b . c : d ( x , y , ... ) return ... end",
	"function f ( ) end function g ( a ) end function h ( ... ) end",
	"local function f ( a ) return end",
	"local a < const > , b < close > = 1 , 2 local c local d = e",
	"return function ( ) end , { [ 1 ] = 2 ; x = 3 , 4 , } ;",
	"return a and b or not c == - # d .. ~ e",
	"return ( a ) , ( b ) . c , ( f ) ( ) , ... , nil , true , false",
	"return 0x1F , 1e+5 , .5 , 3. , 'x' , \"y\" , [[z]] , [==[ ]] ]==]",
	"t = { a , b ; [ 'k' ] = { } , f ( ) , function ( ) end }",
	"goto a do :: a :: end return",
	"a : b ( ) a . b : c { } a [ 1 ] : d 's'",
	"x = a < b == ( c >= d ) ~= e <= f > g",
	"x = 1 + 2 - 3 * 4 / 5 // 6 % 7 ^ 8 & 9 | 10 ~ 11 << 12 >> 13",
}

// luaSpacings: spaces and comments between the tokens.
func luaSpacings(c *Ctx) {
	overList(c, "spacings", fmt.Sprintf("%d chunks with every construct: each of %d spacings everywhere and at each place, no space at each place and wherever possible", len(luaSentences), len(luaSpaces)), luaSentences, 1, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
			g := newLua(c)
			if luaJudge(t) != 1 {
				panic("not a chunk: " + t)
			}
			seq := luaWords(t)
			try := func(t string, must bool) {
				if w.failed {
					return
				}
				if must && luaJudge(t) != 1 {
					panic("not a chunk: " + t)
				}
				readLua(w, g, t)
			}
			for _, sp := range luaSpaces {
				if sp[0] == '-' && strings.Contains(t, "-") {
					sp = " " + sp // not a part of the operator
				}
				try(strings.Join(seq, sp), true)
				try(sp+strings.Join(seq, " ")+sp, true)
				for i := 1; i < len(seq); i++ {
					try(strings.Join(seq[:i], " ")+sp+strings.Join(seq[i:], " "), true)
					try(strings.Join(seq[:i], "\n")+sp+" "+sp+strings.Join(seq[i:], "\n"), true)
				}
			}
			// ends without line break
			for _, e := range []string{"--", "--x", "--[[x]]", "--[", "--[=", " -- [[", "\n--\r", "--[==[ ]] ]==]"} {
				try(t+" "+e, true)
				try(e+"\n"+t, true)
			}
			for _, e := range []string{"--[[", "--[=[ ]]", "-- \n]]", "-", "--[[x]]]", "--[[x]]y", "\x00", "\u00a0", "\ufeff", "\x80"} {
				try(t+" "+e, false)
				try(e+" "+t, false)
			}
			// no spaces
			glued := seq[0]
			for i := 1; i < len(seq); i++ {
				x := strings.Join(seq[:i], " ") + strings.Join(seq[i:], " ")
				try(x, false)
				y := glued + seq[i]
				if sameTokens(y, seq[:i+1]) {
					glued = y
				} else {
					glued += " " + seq[i]
				}
			}
			try(glued, true)
		})
	})
}

// luaWords splits at spaces, but not inside of strings.
func luaWords(t string) []string {
	toks, ok, _ := luaLex(t)
	if !ok {
		panic("no tokens: " + t)
	}
	res := []string{}
	for _, k := range toks {
		res = append(res, t[k.from:k.to])
	}
	return res
}

func sameTokens(t string, seq []string) bool {
	toks, ok, risky := luaLex(t)
	if !ok || risky || len(toks) != len(seq) {
		return false
	}
	for i, k := range toks {
		if t[k.from:k.to] != seq[i] {
			return false
		}
	}
	return true
}

// luaNames: words in the place of each name, keyword and operator word.
func luaNames(c *Ctx) {
	words := []string{"_", "_1", "A", "z9", "a__b", "x1y2", "ä", "1a", "a-b", "a.b", ""}
	for _, k := range luaReserved {
		words = append(words, k, k+"x", k+"_", k+"1", "x"+k, "_"+k, strings.ToUpper(k[:1])+k[1:], k[:len(k)-1], k+k)
	}
	words = uniq(words)
	overList(c, "names", fmt.Sprintf("%d words (keywords with a changed end or beginning, names) at the place of each token of %d chunks, and for all names", len(words), len(luaSentences)), luaSentences, 1, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
			g := newLua(c)
			toks, _, _ := luaLex(t)
			seq := luaWords(t)
			for _, x := range words {
				all := append([]string{}, seq...)
				for i := range seq {
					if w.failed {
						return
					}
					if toks[i].kind == "name" {
						all[i] = x
					}
					s := append([]string{}, seq...)
					s[i] = x
					readLua(w, g, strings.Join(s, " "))
					if isLetter(seq[i][0]) {
						// the word glued to the keyword or name
						s[i] = seq[i] + x
						readLua(w, g, strings.Join(s, " "))
						s[i] = x + seq[i]
						readLua(w, g, strings.Join(s, " "))
					}
				}
				if !w.failed {
					readLua(w, g, strings.Join(all, " "))
				}
			}
		})
	})
}

// luaDocuments: one-byte changes of documents, on the level of the characters.
func luaDocuments(c *Ctx) {
	docs := append(append([]string{}, luaDocs...), luaSentences...)
	bytes := []string{}
	for b := 0; b < 256; b++ {
		bytes = append(bytes, string([]byte{byte(b)}))
	}
	if !c.thorough {
		bytes = strings.Split("\x00|\t|\n|\r| |!|\"|#|'|(|)|,|-|.|0|9|:|;|<|=|>|[|\\|]|_|a|e|x|{|}|~|\xc3|\xff", "|")
	}
	type place struct {
		d int
		p int
	}
	places := []place{}
	for i, d := range docs {
		for p := 0; p <= len(d); p++ {
			places = append(places, place{i, p})
		}
	}
	c.Phase("documents", fmt.Sprintf("%d documents: every prefix, every suffix, every byte deleted, %d bytes inserted or replaced at every place", len(docs), len(bytes)), len(places), func(w *W, u int) {
		d, p := docs[places[u].d], places[u].p
		w.Case(func() string { return fmt.Sprintf("document %q changed at %d", d, p) }, func() {
			g := newLua(c)
			readLua(w, g, d[:p])
			readLua(w, g, d[p:])
			if p < len(d) {
				readLua(w, g, d[:p]+d[p+1:])
			}
			for _, b := range bytes {
				if w.failed {
					return
				}
				x := d[:p] + b + d[p:]
				if parenDepth(strings.Split(x, "")) <= 5 {
					readLua(w, g, x)
				}
				if p < len(d) {
					x := d[:p] + b + d[p+1:]
					if parenDepth(strings.Split(x, "")) <= 5 {
						readLua(w, g, x)
					}
				}
			}
		})
	})
}

func luaSizes(c *Ctx) {
	rep := strings.Repeat
	sized(c, "sizes", "1..60 repetitions or nested blocks of each construct, 1..5 nested functions and tables", 1, 60, c.quickOr(257, 1025), func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("size %d", n) }, func() {
			g := newLua(c)
			list := []string{
				rep("x=1 ", n), rep("f()", n), rep(";", n), rep("break ", n), rep("local a ", n), rep("::l::", n), "x" + rep(",x", n) + "=1" + rep(",1", n), "f(1" + rep(",1", n) + ")", "f" + rep("()", n), "f" + rep(".a", n) + "()", "f" + rep("[1]", n) + "=1", "f" + rep(":m()", n), "f" + rep(" 's'", n), "f" + rep("{}", n), "x=1" + rep("+1", n), "x=" + rep("-a^", n) + "b", "x=a" + rep("..a", n), "x=" + rep("not ", n) + "a", "x={" + rep("1,", n) + "}", "x={" + rep("a=1;", n) + "}", "x={" + rep("[1]=1,", n) + "}",
				rep("do ", n) + rep("end ", n), rep("while x do ", n) + rep("end ", n), rep("repeat ", n) + rep("until x ", n), rep("if x then ", n) + rep("end ", n), "if x then " + rep("elseif x then ", n) + "else end", rep("for i=1,2 do ", n) + rep("end ", n), rep("for k in t do ", n) + rep("end ", n), rep("function f() ", n) + rep("end ", n), rep("local function f() ", n) + rep("end ", n), rep("do ", n) + rep("end ", n-1), rep("do ", n) + rep("end ", n+1), "function f" + rep(".a", n) + ":b() end", "function f(a" + rep(",a", n) + ",...) end", "for a" + rep(",a", n) + " in b" + rep(",b", n) + " do end", "local a" + rep("<const>,a", n) + " =1" + rep(",1", n), "return 1" + rep(",1", n) + ";", rep("--c\n", n) + "x=1" + rep("--[[c]]", n), "x" + rep(" ", n) + "=" + rep("\n", n) + "1" + rep("\t", n), rep("if x then y=1 else z=2 end ", n), rep("goto l ", n), "x" + rep("=x", n), "x" + rep(",x", n), "f(1" + rep(",1", n) + ",)", "x={1" + rep(",1", n) + ",,}", "x={1" + rep(";1", n) + ";}",
			}
			if n <= c.quickOr(5, 7) {
				list = append(list, "x="+rep("{", n)+rep("}", n), "x="+rep("function() ", n)+rep("end ", n), "x="+rep("function() return ", n)+rep("end ", n), "x="+rep("{a=", n)+"1"+rep("}", n), "x="+rep("{[1]=", n)+"1"+rep("}", n), "x="+rep("a[", n)+"1"+rep("]", n), "x="+rep("{", n)+rep("}", n-1), "x="+rep("f{", n)+rep("}", n))
			}
			if n <= 6 {
				list = append(list, "x="+rep("(", n)+"a"+rep(")", n), rep("(", n)+"a"+rep(")", n)+"()", "x="+rep("f(", n)+rep(")", n), rep("f(", n)+rep(")", n), "x="+rep("(", n)+"a"+rep(")", n-1), "x="+rep("(-", n)+"a"+rep(")", n)+"+1", "x="+rep("(a+", n)+"a"+rep(")", n), rep("f(function() ", n)+rep("end) ", n))
			}
			for _, t := range list {
				if w.failed {
					return
				}
				readLua(w, g, t)
			}
		})
	})
}
