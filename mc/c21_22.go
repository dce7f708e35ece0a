package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func init() {
	register("C21", "all texts up to a bound over the symbols of each part of JSON, all one-byte changes of documents, all runes and bytes in strings; consumed prefix compared with the longest prefix that encoding/json accepts (short texts) or that the reference recognizer accepts (both compared with each other)", checkC21)
	register("C22", "the same texts; picked segments compared with the parse of the grammar on crockford.com/mckeeman.html by the reference semantics, all rules at once and each rule alone; the graph compared with the nesting", checkC22)
}

// ------------------------------------------------------- reference recognizer

// jsonPrefix returns the end of the longest prefix that is a JSON text, or -1.
func jsonPrefix(t string) int {
	p := jsonWS(t, 0)
	q := jsonValue(t, p)
	if q < 0 {
		return -1
	}
	return jsonWS(t, q)
}

func jsonWS(t string, p int) int {
	for p < len(t) && strings.IndexByte(" \t\r\n", t[p]) >= 0 {
		p++
	}
	return p
}

func isD(t string, p int) bool { return p < len(t) && t[p] >= '0' && t[p] <= '9' }

func jsonValue(t string, p int) int {
	if p >= len(t) {
		return -1
	}
	switch t[p] {
	case '{':
		p = jsonWS(t, p+1)
		if p < len(t) && t[p] == '}' {
			return p + 1
		}
		for {
			p = jsonString(t, jsonWS(t, p))
			if p < 0 {
				return -1
			}
			p = jsonWS(t, p)
			if p >= len(t) || t[p] != ':' {
				return -1
			}
			p = jsonValue(t, jsonWS(t, p+1))
			if p < 0 {
				return -1
			}
			p = jsonWS(t, p)
			if p >= len(t) {
				return -1
			}
			if t[p] == '}' {
				return p + 1
			}
			if t[p] != ',' {
				return -1
			}
			p++
		}
	case '[':
		p = jsonWS(t, p+1)
		if p < len(t) && t[p] == ']' {
			return p + 1
		}
		for {
			p = jsonValue(t, jsonWS(t, p))
			if p < 0 {
				return -1
			}
			p = jsonWS(t, p)
			if p >= len(t) {
				return -1
			}
			if t[p] == ']' {
				return p + 1
			}
			if t[p] != ',' {
				return -1
			}
			p++
		}
	case '"':
		return jsonString(t, p)
	}
	for _, x := range []string{"true", "false", "null"} {
		if has(t, p, x) {
			return p + len(x)
		}
	}
	if t[p] == '-' {
		p++
	}
	if !isD(t, p) {
		return -1
	}
	if t[p] == '0' {
		p++
	} else {
		for isD(t, p) {
			p++
		}
	}
	if p < len(t) && t[p] == '.' && isD(t, p+1) {
		p++
		for isD(t, p) {
			p++
		}
	}
	if p < len(t) && (t[p] == 'e' || t[p] == 'E') {
		q := p + 1
		if q < len(t) && (t[q] == '+' || t[q] == '-') {
			q++
		}
		if isD(t, q) {
			for isD(t, q) {
				q++
			}
			p = q
		}
	}
	return p
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

func jsonString(t string, p int) int {
	if p >= len(t) || t[p] != '"' {
		return -1
	}
	for p++; p < len(t); {
		switch b := t[p]; {
		case b == '"':
			return p + 1
		case b < 0x20:
			return -1
		case b == '\\':
			if p+1 >= len(t) {
				return -1
			}
			switch t[p+1] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p += 2
			case 'u':
				for i := 2; i < 6; i++ {
					if p+i >= len(t) || !isHex(t[p+i]) {
						return -1
					}
				}
				p += 6
			default:
				return -1
			}
		default:
			p++
		}
	}
	return -1
}

// jsonValidPrefix: the same with encoding/json.
func jsonValidPrefix(t string) int {
	for n := len(t); n > 0; n-- {
		if json.Valid([]byte(t[:n])) {
			return n
		}
	}
	return -1
}

// ---------------------------------------------------------------- the texts

// jsonTexts calls f for every text of the space.
func jsonTexts(c *Ctx, less int, f func(w *W, t string)) {
	type alpha struct {
		name string
		syms []string
		n    int
	}
	d := c.quickOr(0, 1) - less
	as := []alpha{
		{"structure", []string{"{", "}", "[", "]", ",", ":", `"k"`, "1", " "}, 6 + d},
		{"number", []string{"-", "+", ".", "e", "E", "0", "1", "9", " ", ","}, 6 + d},
		{"string", []string{`"`, `\`, "u", "b", "/", "0", "a", "F", "g", "\n", "ä", "\x1f", "\x7f", "\xff"}, 5 + d},
		{"words", []string{"t", "r", "u", "e", "f", "a", "l", "s", "n", "ll", "[", "]"}, 5 + d},
		{"spaces", []string{" ", "\t", "\n", "\r", "\f", "\v", "\u00a0", "\ufeff", "1", "[", "]", ","}, 5 + d},
		{"values", []string{"{", "}", "[", "]", ",", ":", `"`, "\\", "0", "-", ".", "true", "null", " ", "e"}, 5 + d},
		{"objects", []string{"{", "}", `"a"`, ":", ",", "1", "[", "]", "{}", " "}, 6 + d},
	}
	for _, a := range as {
		a := a
		head := texts(a.syms, 2)
		overList(c, "texts-"+a.name, fmt.Sprintf("all texts of up to %d of %d symbols", a.n, len(a.syms)), head, 1, func(w *W, h string) {
			rest := []string{""}
			if len(runes(h)) >= 0 && symCount(a.syms, h) == 2 {
				rest = texts(a.syms, a.n-2)
			}
			w.Case(func() string { return fmt.Sprintf("texts beginning with %q", h) }, func() {
				for _, x := range rest {
					if w.failed {
						return
					}
					w.states++
					w.trans++
					w.note = fmt.Sprintf("%q", h+x)
					f(w, h+x)
				}
			})
		})
	}
	// objects and strings that need more symbols
	heads := []string{`{"a":`, `{"a":1`, `[1,`, `[`, `"\u12`, `"\`, `{"a":{"b":`, `[[[`, `{`, `-1.`, `1e`, `[{"a":[`}
	tails := []string{"", "]", "}", `"`, "]]]", "}}", " ", `ab"`}
	mid := texts([]string{"{", "}", "[", "]", ",", ":", `"a"`, "0", " ", "-"}, 3+d)
	overList(c, "texts-framed", fmt.Sprintf("12 beginnings and 8 ends around up to %d of 10 symbols", 3+d), heads, 1, func(w *W, h string) {
		w.Case(func() string { return fmt.Sprintf("texts beginning with %q", h) }, func() {
			for _, m := range mid {
				for _, e := range tails {
					if w.failed {
						return
					}
					w.states++
					w.trans++
					w.note = fmt.Sprintf("%q", h+m+e)
					f(w, h+m+e)
				}
			}
		})
	})
	docs := append(append([]string{}, jsonDocs...), `[{"a":{"b":[{"c":[[],{}]}]}},"\uABCD\uabcd","\ud83d\ude00",1.5E+10,-0,0.0e-0]`)
	total := 0
	for _, x := range docs {
		total += len(x)
	}
	c.Phase("bytes", "every byte at every place of the documents, every insertion and deletion, every prefix and suffix", total, func(w *W, u int) {
		d := ""
		for _, x := range docs {
			if u < len(x) {
				d = x
				break
			}
			u -= len(x)
		}
		w.Case(func() string { return fmt.Sprintf("document %q changed at %d", d, u) }, func() {
			one := func(t string) {
				if !w.failed {
					w.states++
					w.trans++
					w.note = fmt.Sprintf("%q", t)
					f(w, t)
				}
			}
			for b := 0; b < 256; b++ {
				one(d[:u] + string([]byte{byte(b)}) + d[u+1:])
				one(d[:u] + string([]byte{byte(b)}) + d[u:])
			}
			one(d[:u])
			one(d[u:])
			one(d[:u] + d[u+1:])
			one(d[:u] + d)
			for v := u + 1; v < len(d); v++ {
				one(d[:u] + d[v:])
			}
		})
	})
	n := c.quickOr(12, 24)
	overList(c, "spans", fmt.Sprintf("%d documents: every span of up to %d characters removed, repeated once and twice, and exchanged with up to %d characters before it", len(docs), n, n), docs, 1, func(w *W, d string) {
		w.Case(func() string { return fmt.Sprintf("document %q", d) }, func() {
			spanChanges(strings.Split(d, ""), n, func(s []string) {
				if !w.failed {
					t := strings.Join(s, "")
					w.states++
					w.trans++
					w.note = fmt.Sprintf("%q", t)
					f(w, t)
				}
			})
		})
	})
}

// symCount: number of symbols of a text of up to two symbols.
func symCount(syms []string, h string) int {
	if h == "" {
		return 0
	}
	for _, s := range syms {
		if s == h {
			// it may also be two symbols
			for _, a := range syms {
				for _, b := range syms {
					if a+b == h {
						return 2
					}
				}
			}
			return 1
		}
	}
	return 2
}

var jsonPool = sync.Pool{New: func() interface{} { return grammar.JSON() }}

func judgeJSON(w *W, g *grammar.JSONReader, t string, byLib bool) {
	want := jsonPrefix(t)
	if byLib {
		if lib := jsonValidPrefix(t); lib != want {
			w.Fail("the reference recognizer reads %d bytes, encoding/json accepts %d", want, lib)
			return
		}
	}
	s := tok.NewScanner(t)
	err := s.Use(g)
	if (err == nil) != (want >= 0) {
		w.Fail("error %v, longest JSON prefix %d", err, want)
		return
	}
	if err != nil {
		want = 0
	}
	if int(s.Mark()) != want {
		w.Fail("consumed %d (error %v), longest JSON prefix %d", s.Mark(), err, want)
		return
	}
	// the same behind other text
	s = tok.NewScanner("[" + t)
	s.Move(1)
	err2 := g.Read(s)
	if (err == nil) != (err2 == nil) || int(s.Mark()) != want+1 {
		w.Fail("behind a [: error %v at %d, expected %v at %d", err2, s.Mark(), err, want+1)
	}
}

func checkC21(c *Ctx) {
	hugeJSON(c)
	grammarPlaces(c, 0, false)
	jsonTexts(c, 0, func(w *W, t string) {
		g := jsonPool.Get().(*grammar.JSONReader)
		judgeJSON(w, g, t, len(t) <= 12)
		jsonPool.Put(g)
	})
	c.Phase("runes", "every rune in a string, in a key, and outside of strings", 0x110, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("runes %#x00.. in strings", u*16) }, func() {
			g := grammar.JSON()
			for r := rune(u) << 12; r < rune(u+1)<<12 && r <= utf8.MaxRune; r++ {
				if r >= 0xd800 && r < 0xe000 {
					continue
				}
				x := string(r)
				for _, t := range []string{`"` + x + `"`, `"\` + x + `"`, x, "1" + x} {
					w.states++
					w.trans++
					w.note = fmt.Sprintf("%q", t)
					judgeJSON(w, g, t, r < 0x300)
				}
			}
		})
	})
	c.Phase("escapes", "every pair of bytes after a backslash, every byte at every digit of an u escape", 256, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("escape %q", string([]byte{byte(u)})) }, func() {
			g := grammar.JSON()
			for b := 0; b < 256; b++ {
				for _, t := range []string{`"\` + string([]byte{byte(u), byte(b)}) + `"`, `"\` + string([]byte{byte(u)}) + `" ` + string([]byte{byte(b)})} {
					w.trans++
					w.note = fmt.Sprintf("%q", t)
					judgeJSON(w, g, t, true)
				}
			}
			for i := 0; i < 4; i++ {
				d := []byte(`"\u09aF"`)
				d[3+i] = byte(u)
				w.trans++
				w.note = fmt.Sprintf("%q", d)
				judgeJSON(w, g, string(d), true)
				d = append(d[:3+i], append([]byte{byte(u)}, d[3+i:]...)...)
				judgeJSON(w, g, string(d), true)
			}
		})
	})
	jsonDialects(c)
	sized(c, "sizes", "nesting of 1..400 arrays and objects, 1..400 elements, members, characters, digits; complete, cut and broken", 1, 400, 4097, func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("size %d", n) }, func() {
			g := grammar.JSON()
			rep := strings.Repeat
			list := []string{
				rep("[", n) + rep("]", n), rep("[", n) + rep("]", n-1), rep("[", n) + rep("]", n+1), rep("[", n) + "1" + rep("]", n), rep("[", n) + "x" + rep("]", n), rep(" [ ", n) + rep(" ] ", n),
				rep(`{"a":`, n) + "1" + rep("}", n), rep(`{"a":`, n) + rep("}", n), rep(`{"a":[`, n) + rep("]}", n), rep(`{"a":[`, n) + rep("]}", n-1), rep(`[{"a":`, n) + "null" + rep("}]", n), rep(`[{"a":`, n) + "nul" + rep("}]", n),
				"[1" + rep(",1", n) + "]", "[1" + rep(",1", n) + ",]", "[1" + rep(", 1 ", n), `{"a":1` + rep(`,"a":1`, n) + "}", `{"a":1` + rep(`,"a":1`, n) + ",}", `{"a":1` + rep(`,"a"`, n) + "}",
				`"` + rep("a", n) + `"`, `"` + rep("ä", n), `"` + rep(`\n`, n) + `"`, `"` + rep(`\u00e9`, n) + `"`, `"` + rep(`\u00e9`, n) + `\`, `"` + rep(`\\`, n) + `"`, `"` + rep(`\\`, n) + `\"`,
				rep("1", n), "-" + rep("9", n) + "." + rep("0", n) + "e" + rep("1", n), "0" + rep("0", n), rep("-", n) + "1", "1." + rep("0", n) + ".", rep(" ", n), rep(" ", n) + "1" + rep("\n", n), rep(" ", n) + "x",
			}
			for _, t := range list {
				w.states++
				w.trans++
				w.note = t
				judgeJSON(w, g, t, n <= 4)
			}
		})
	})
	jsonRulesAlone(c)
}

// jsonRulesAlone: every rule of the grammar used on its own reads the part of
// the McKeeman grammar with its name.
func jsonRulesAlone(c *Ctx) {
	model := jsonRules()
	names := sortedKeys(model)
	syms := []string{"{", "}", "[", "]", ",", ":", `"`, "\\", "a", "u", "0", "1", "-", "+", ".", "e", "n", " ", "\n", "true", "null", "\uFFFD", "\xff", "\x1f"}
	list := texts(syms, c.quickOr(3, 4))
	for _, n := range []string{"0", "1", "9", "-", "e", "E", ".", "a", "f", "F", "g", "A"} {
		list = append(list, texts([]string{"0", "7", n, "."}, 5)...)
	}
	for _, d := range jsonDocs {
		for i := range d {
			list = append(list, d[i:])
		}
	}
	list = append(list, texts([]string{`"a"`, ":", ",", "1", "{", "}", "[", "]", " "}, 5)...)
	list = append(list, texts([]string{`"`, "\\", "u", "00e", "a", "n", "F9", "ä"}, 5)...)
	for b := 0; b < 256; b++ {
		x := string([]byte{byte(b)})
		list = append(list, x, x+"1", "1"+x, "\\"+x, "u000"+x, "-"+x, "1."+x, "1e"+x, "e"+x, `"`+x+`"`)
	}
	list = uniq(list)
	const per = 512
	c.Phase("rules", fmt.Sprintf("each of the %d rules used alone on %d texts", len(names), len(list)), (len(list)+per-1)/per, func(w *W, u int) {
		g := grammar.JSON()
		rules := map[string]*tok.Rule{}
		for _, r := range g.Grammar() {
			rules[r.Name] = r
		}
		for i := u * per; i < len(list) && i < (u+1)*per; i++ {
			t := list[i]
			w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
				for _, n := range names {
					r := rules[n]
					if r == nil {
						w.Fail("no rule %q", n)
						return
					}
					in := &interp{t: t}
					want := in.eval(model[n], 0, len(t))
					s := tok.NewScanner(t)
					err := s.Use(r)
					w.trans++
					// an empty match and no match are the same for optional parts
					if int(s.Mark()) != want.pos || (err == nil) != want.ok && want.pos > 0 {
						w.Fail("rule %s: error %v at %d, expected match %v at %d", n, err, s.Mark(), want.ok, want.pos)
						return
					}
				}
			})
		}
	})
}

// ---------------------------------------------------------------------- C22

// jsonModel: the McKeeman grammar with a pick on every rule.
func jsonModel() *ex {
	return jsonRules()["element"]
}

func jsonRules() map[string]*ex {
	rules := map[string]*ex{}
	refs := []*ex{}
	ref := func(n string) *ex {
		r := eRef(n)
		refs = append(refs, r)
		return r
	}
	def := func(n string, e *ex) { rules[n] = ePick(n, e) }
	opt := func(e *ex) *ex { return eUn(kOpt, e) }
	zom := func(e *ex) *ex { return eUn(kZom, e) }
	many := func(e *ex) *ex { return eUn(kMany, e) }
	def("ws", zom(eAnyRune(" \r\n\t")))
	def("null", eLit("null"))
	def("bool", eAny(eLit("true"), eLit("false")))
	def("sign", opt(eAnyRune("+-")))
	def("onenine", eBetween('1', '9'))
	def("digit", eBetween('0', '9'))
	def("digits", many(ref("digit")))
	def("exponent", opt(eSeq(eAnyRune("eE"), ref("sign"), ref("digits"))))
	def("fraction", opt(eSeq(eRune('.'), ref("digits"))))
	def("integer", eSeq(opt(eRune('-')), eAny(eRune('0'), eSeq(ref("onenine"), opt(ref("digits"))))))
	def("number", eSeq(ref("integer"), ref("fraction"), ref("exponent")))
	def("hex", eBetweenAny("0-9a-fA-F"))
	def("escape", eAny(eAnyRune(`"\/bfnrt`), eSeq(eRune('u'), eTimes(4, ref("hex")))))
	def("character", eAny(eHoley(' ', utf8.MaxRune, `"\`), eSeq(eRune('\\'), ref("escape"))))
	def("characters", zom(ref("character")))
	str := eSeq(eRune('"'), ref("characters"), eRune('"'))
	def("string", str)
	def("key", str)
	def("element", eSeq(ref("ws"), ref("value"), ref("ws")))
	def("elements", eSeq(ref("element"), zom(eSeq(eRune(','), ref("element")))))
	def("array", eSeq(eRune('['), eAny(ref("elements"), ref("ws")), eRune(']')))
	def("member", eSeq(ref("ws"), ref("key"), ref("ws"), eRune(':'), ref("element")))
	def("members", eSeq(ref("member"), zom(eSeq(eRune(','), ref("member")))))
	def("object", eSeq(eRune('{'), eAny(ref("members"), ref("ws")), eRune('}')))
	def("value", eAny(ref("object"), ref("array"), ref("string"), ref("number"), ref("bool"), ref("null")))
	for _, r := range refs {
		r.ref = rules[r.str]
	}
	return rules
}

func ofInfo(l []seg, info string) []seg {
	res := []seg{}
	for _, s := range l {
		if s.info == info {
			res = append(res, s)
		}
	}
	return res
}

type jsonPicker struct {
	all    *grammar.JSONReader
	basket *tok.Basket
	names  []string
	single []*grammar.JSONReader
	sb     []*tok.Basket
	model  *ex
}

func newJSONPicker(singles bool) *jsonPicker {
	p := &jsonPicker{all: grammar.JSON(), model: jsonModel()}
	sc := tok.NewScanner("")
	p.basket = sc.NewBasketFor(p.all)
	if singles {
		for i, r := range p.all.Grammar() {
			g := grammar.JSON()
			b := &tok.Basket{}
			b.PickWith(g.Grammar()[i])
			p.names = append(p.names, r.Name)
			p.single = append(p.single, g)
			p.sb = append(p.sb, b)
		}
	}
	return p
}

func (p *jsonPicker) judge(w *W, t string) {
	in := &interp{t: t}
	want := in.eval(p.model, 0, len(t))
	clearBasket(p.basket)
	s := tok.NewScanner(t)
	s.Tracker = p.basket
	err := s.Use(p.all)
	if (err == nil) != want.ok || int(s.Mark()) != want.pos {
		w.Fail("error %v at %d, model %v at %d", err, s.Mark(), want.ok, want.pos)
		return
	}
	got := segsOf(p.basket.Picked())
	if !comparePicks(w, got, in, func() string { return t }) {
		return
	}
	for i, g := range p.single {
		clearBasket(p.sb[i])
		s := tok.NewScanner(t)
		s.Tracker = p.sb[i]
		g.Read(s)
		w.trans++
		x := segsOf(p.sb[i].Picked())
		n := p.names[i]
		// each rule alone gives the part of this rule
		if !sameSegs(x, ofInfo(got, n)) {
			w.Fail("%s picked alone gives %v, with all %v", n, x, ofInfo(got, n))
			return
		}
	}
	if err != nil {
		return
	}
	// the graph holds them all, nested as in the document
	gr := tok.NewGraph("json")
	for _, x := range p.basket.Picked() {
		if _, ok := gr.Append(x); !ok {
			w.Fail("the graph refuses %s of %v", x, p.basket)
			return
		}
	}
	tree := treeOf(gr.Root, 0)
	if msg := treeInvariants(tree, segsOf(p.basket.Picked())); msg != "" {
		w.Fail("%s in %s", msg, tree)
		return
	}
	full := nonEmpty(in.spec)
	if a, b := pruneEmpty(tree).String(), nestModel("json", full).String(); a != b {
		w.Fail("the graph is %s, expected %s", a, b)
	}
}

// pruneEmpty removes the empty segments.
func pruneEmpty(n *tnode) *tnode {
	c := &tnode{info: n.info, a: n.a, b: n.b}
	for _, s := range n.sub {
		if s.b > s.a {
			c.sub = append(c.sub, pruneEmpty(s))
		}
	}
	return c
}

func checkC22(c *Ctx) {
	grammarPlaces(c, 0, true)
	pool := sync.Pool{New: func() interface{} { return newJSONPicker(false) }}
	jsonTexts(c, 0, func(w *W, t string) {
		p := pool.Get().(*jsonPicker)
		p.judge(w, t)
		pool.Put(p)
	})
	spool := sync.Pool{New: func() interface{} { return newJSONPicker(true) }}
	list := []string{}
	for _, d := range append(append([]string{}, jsonDocs...), `[{"a":{"b":[{"c":[[],{}]}]}},"\uABCD\uabcd","\ud83d\ude00",1.5E+10,-0,0.0e-0]`) {
		for i := 0; i <= len(d); i++ {
			list = append(list, d[:i], d[i:])
			for _, x := range []string{"[", "{", `"`, "1", " ", ",", "]", "}", "-", `\`, "null"} {
				list = append(list, d[:i]+x+d[i:])
			}
		}
	}
	for _, t := range texts([]string{"{", "}", "[", "]", ",", `"a"`, ":", "-1.5e2", " ", "true"}, c.quickOr(4, 5)) {
		list = append(list, t)
	}
	overList(c, "each-rule", "each rule picked alone; all texts of up to 4 of 10 symbols and one-symbol insertions in documents", uniq(list), 64, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
			p := spool.Get().(*jsonPicker)
			p.judge(w, t)
			spool.Put(p)
		})
	})
	sized(c, "sizes", "nesting of 1..60 arrays and objects, 1..60 elements, members, characters, digits", 1, 130, c.quickOr(513, 1025), func(w *W, n int) {
		rep := strings.Repeat
		for _, t := range []string{rep("[", n) + rep("]", n), rep(`{"a":[`, n) + rep("]}", n), "[1" + rep(",1", n) + "]", `{"a":1` + rep(`,"a":1`, n) + "}", `"` + rep("ä", n) + `"`, `"` + rep(`\u00e9`, n) + `"`, "-" + rep("9", n) + "." + rep("0", n) + "e" + rep("1", n), rep(" ", n) + "1" + rep("\n", n), rep(" [ ", n) + rep(" ] ", n), rep("[", n) + rep("]", n-1)} {
			w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
				p := pool.Get().(*jsonPicker)
				p.judge(w, t)
				pool.Put(p)
			})
		}
	})
}
