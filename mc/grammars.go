package main

import (
	"fmt"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// gram is one of the built-in grammars with material to build texts from.
type gram struct {
	name  string
	toks  []string // token alphabet
	n, nT int      // length bound, thorough
	docs  []string
	fresh func() inst
}

type inst struct {
	g       tok.Grammar
	readers []tok.Reader
	names   []string
}

func instOf(g tok.Grammar, extra ...tok.Reader) inst {
	in := inst{g: g, readers: []tok.Reader{g}, names: []string{"grammar"}}
	for _, r := range extra {
		in.readers = append(in.readers, r)
		in.names = append(in.names, r.What())
	}
	return in
}

var jsonDocs = []string{`{"a":[1,-2.5e+3,true,false,null,"xä\u00e9\n"],"b":{}}`, ` [ {"k" : [ ] } , "" , 0 ] `, `"\"\\\/\b\f\n\r\t"`, `-0.10E-2`, `{"a":1,"a":2}`, "\t{\r\n}\n"}
var mxtDocs = []string{"// a -->\nx\n// b --> S\n// c\n//S d -->\ny", "//-- n\n// comment\n//---> \r\nx\r\n//z q -->", "// a -->", "//+ a c -->\n\n\n//x b -->\n"}
var luaDocs = []string{
	"local function f(a, ...)\n  -- c\n  return a.b[1]:m{x=1;[2]=3} .. \"s\\n\" -- d\nend\n",
	"for i = 1, 10, 2 do if not x then goto l elseif y then break else ; end ::l:: end",
	"while a<b do repeat x,y=1,2 until #t==0x1F end --[==[ ]] ]==] return function() end",
	"local a <const>, b <close> = [=[x]]]=], 'y'; for k,v in pairs(t) do t[k]=v//1 end",
}

func grams() []*gram {
	return []*gram{
		{name: "json", toks: []string{"{", "}", "[", "]", ",", ":", `"`, `\`, "u", "0", "1", "-", ".", "e", "null", " ", "\xff"}, n: 4, nT: 5, docs: jsonDocs,
			fresh: func() inst {
				g := grammar.JSON()
				return instOf(g, &g.Value, &g.Number, &g.String, &g.Members, &g.Elements)
			}},
		{name: "mxt", toks: []string{"//", "-->", " ", "\n", "\r\n", "a", "-", "S", "\xff", "/", ">", "ä"}, n: 5, nT: 6, docs: mxtDocs,
			fresh: func() inst {
				g := grammar.MXT()
				return instOf(g, &g.Chunk, &g.Header)
			}},
		{name: "lua", toks: []string{"x", "=", "1", "(", ")", "{", "}", "[", "]", ",", ".", ":", ";", "function ", "end ", "return ", "local ", "do ", "--", "\n", "\"", "\xff"}, n: 4, nT: 5, docs: luaDocs,
			fresh: func() inst {
				g := grammar.Lua()
				return instOf(g, &g.Exp, &g.Stat, &g.LiteralString, &g.Comment, &g.Numeral, &g.Script)
			}},
	}
}

// grammarTexts: every text up to the bound over the tokens of each grammar,
// every truncation and every one-byte change of the documents.
func grammarTexts(c *Ctx, prefix string, f func(w *W, g *gram, r inst, t string)) {
	grammarTextsLess(c, prefix, 0, f)
}

// grammarTextsLess: less tokens per text in the quick tier.
func grammarTextsLess(c *Ctx, prefix string, less int, f func(w *W, g *gram, r inst, t string)) {
	for _, g := range grams() {
		g := g
		n := c.quickOr(g.n-less, g.nT)
		units := len(g.toks) * len(g.toks)
		rest := texts(g.toks, n-2)
		c.Phase(prefix+"texts-"+g.name, fmt.Sprintf("all texts of up to %d of %d tokens", n, len(g.toks)), units, func(w *W, u int) {
			r := g.fresh()
			head := g.toks[u/len(g.toks)] + g.toks[u%len(g.toks)]
			for _, x := range rest {
				t := head + x
				w.Case(func() string { return fmt.Sprintf("%s text %q", g.name, t) }, func() { f(w, g, r, t) })
			}
			if u == 0 {
				for _, t := range texts(g.toks, 1) {
					w.Case(func() string { return fmt.Sprintf("%s text %q", g.name, t) }, func() { f(w, g, r, t) })
				}
			}
		})
		list := []string{}
		for _, d := range g.docs {
			for i := 0; i <= len(d); i++ {
				list = append(list, d[:i], d[i:])
				if i < len(d) {
					list = append(list, d[:i]+d[i+1:], d[:i]+"\xff"+d[i+1:], d[:i]+"\uFFFD"+d[i:], d[:i]+" "+d[i+1:], d[:i]+d[i:i+1]+d[i:])
				}
				for _, tk := range g.toks {
					list = append(list, d[:i]+tk+d[i:])
				}
			}
		}
		overList(c, prefix+"documents-"+g.name, fmt.Sprintf("all prefixes, suffixes, one-byte changes and one-token insertions of %d documents", len(g.docs)), uniq(list), 8, func(w *W, t string) {
			r := g.fresh()
			w.Case(func() string { return fmt.Sprintf("%s text %q", g.name, t) }, func() { f(w, g, r, t) })
		})
	}
}

// grammarPlaces: a grammar reads the text behind the position, whatever stands before it.
func grammarPlaces(c *Ctx, gi int, picks bool) {
	g := grams()[gi]
	list := []string{}
	for _, d := range g.docs {
		for i := 0; i <= len(d); i++ {
			list = append(list, d[:i], d[i:])
			if i < len(d) {
				list = append(list, d[:i]+d[i+1:])
			}
		}
	}
	list = uniq(list)
	pres := append([]string{"x", "\n", " ", "ä", "\xff", "//", "[", "--[[", "\"", "// z --> S\n"}, g.docs[0])
	read := func(pre, t string) (err error, at int, segs []seg) {
		in := g.fresh()
		s := tok.NewScanner(pre + t)
		s.Move(len(pre))
		b := s.NewBasket()
		if picks {
			b = s.NewBasketFor(in.g)
		}
		err = in.g.Read(s)
		for _, x := range segsOf(b.Picked()) {
			x.from -= len(pre)
			x.to -= len(pre)
			segs = append(segs, x)
		}
		return err, int(s.Mark()) - len(pre), segs
	}
	overList(c, "places-"+g.name, fmt.Sprintf("all prefixes, suffixes and one-byte deletions of %d documents behind %d other texts: the same as alone", len(g.docs), len(pres)), list, 8, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%s text %q", g.name, t) }, func() {
			err, at, segs := read("", t)
			for _, p := range pres {
				w.trans++
				err2, at2, segs2 := read(p, t)
				if (err == nil) != (err2 == nil) || at != at2 {
					w.Fail("behind %q: error %v at %d, alone %v at %d", p, err2, at2, err, at)
				}
				if err2 != nil && at2 != 0 {
					w.Fail("behind %q: the failed read moves by %d", p, at2)
				}
				if !sameSegs(segs, segs2) {
					w.Fail("behind %q: picks %v, alone %v", p, segs2, segs)
				}
			}
		})
	})
}

// grammarBytes: every byte at every place of the documents.
func grammarBytes(c *Ctx) {
	for _, g := range grams() {
		g := g
		total := 0
		for _, d := range g.docs {
			total += len(d)
		}
		c.Phase("bytes-"+g.name, "every byte value at every place of the documents", total, func(w *W, u int) {
			d := ""
			for _, x := range g.docs {
				if u < len(x) {
					d = x
					break
				}
				u -= len(x)
			}
			r := g.fresh()
			for b := 0; b < 256; b++ {
				t := d[:u] + string([]byte{byte(b)}) + d[u+1:]
				w.Case(func() string { return fmt.Sprintf("%s text %q", g.name, t) }, func() {
					s := tok.NewScanner(t)
					s.Tracker = &limTracker{max: 50000000, size: len(t)}
					w.trans++
					r.g.Read(s)
				})
			}
		})
	}
}

// janusExprs: expressions around a Janus pair.
func janusSpaces(c *Ctx) []space {
	beg := func(s *ex) *ex { return eJBeg("j", s) }
	subs := []*ex{eUn(kZom, eLit("a")), eAnyRune("ab"), eUn(kOpt, eLit("ab"))}
	list := []*ex{}
	for _, s := range subs {
		b, e := beg(s), eJEnd("j")
		parts := []*ex{b, e, eLit("a"), eUn(kOpt, b), eUn(kOpt, e), eUn(kAt, b), eUn(kAt, e), eUn(kNot, e), eUn(kTo, e), eUn(kPast, e), eUn(kZom, e), eUn(kMany, b), eSeq(b, eLit("b")), eSeq(e, eLit("b")), eAny(eSeq(b, eLit("x")), eLit("a")), eAny(eSeq(e, eLit("x")), eLit("b"))}
		for _, x := range parts {
			for _, y := range parts {
				for _, k := range []kind{kBody, kBodyTail} {
					list = append(list, eBin(k, x, y), eSeq(x, eBin(k, y, e)), eSeq(x, eBin(k, y, b)), eSeq(x, eBin(k, b, y)), eAny(eSeq(b, eBin(k, x, y)), eSeq(eBin(k, x, y), e)), eUn(kZom, eBin(k, x, y)))
				}
				list = append(list, eSkipSeq(x, y, e), eSkipSeq(x, b, y), eTimes(2, eSeq(x, y)), eUn(kNot, eSeq(x, y)), eUn(kTo, eSeq(x, y)), eUn(kPast, eSeq(x, y)), eUn(kMany, eSeq(x, y)), eUn(kAt, eSeq(x, y)))
				for _, z := range parts {
					list = append(list, eSeq(x, y, z), eAny(eSeq(x, y), eSeq(y, z)), eUn(kZom, eSeq(x, eAny(y, z))))
				}
			}
		}
	}
	return []space{listSpace("pair", "two or three parts around a Janus pair below every combinator, 16 kinds of parts", list, texts([]string{"a", "b"}, c.quickOr(5, 6)), false)}
}

func janusExprs(c *Ctx, prefix string, newJudge func() judge) {
	explore(c, renamed(janusSpaces(c), prefix), newJudge)
}
