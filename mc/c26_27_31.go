package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func init() {
	register("C26", "all short names and all names with one changed rune; all grammar structs of up to three fields over the kinds of fields, larger ones with one or two other fields, with all assignments of names and readers; the built-in grammars", checkC26)
	register("C27", "every constructor with a wrong argument of every kind at every place, all short range strings; the invalid reader under every combination of combinators; all valid expressions of the spaces", checkC27)
	register("C31", "What of every reader expression of the spaces compared with the notation, before and after reads, with wrappers at every node; rules, grammars and their lines", checkC31)
}

// ---------------------------------------------------------------------- C26

func nameModel(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		letter := b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
		if !letter && (i == 0 || !(b >= '0' && b <= '9') && strings.IndexByte("+-._", b) < 0) {
			return false
		}
	}
	return true
}

func judgeName(w *W, s string) {
	w.states++
	w.trans++
	if got, want := tok.CheckRuleName(s) == nil, nameModel(s); got != want {
		w.Fail("CheckRuleName(%q): accepted %v, expected %v", s, got, want)
	}
}

func checkC26(c *Ctx) {
	all := []string{}
	for b := 0; b < 256; b++ {
		all = append(all, string([]byte{byte(b)}))
	}
	overList(c, "names-bytes", "all names of up to 2 bytes, and a letter, two bytes and a letter", all, 4, func(w *W, a string) {
		w.Case(func() string { return fmt.Sprintf("names beginning with %q", a) }, func() {
			judgeName(w, "")
			judgeName(w, a)
			for _, b := range all {
				judgeName(w, a+b)
				judgeName(w, "a"+a+b+"z")
				judgeName(w, "a"+a+b)
			}
		})
	})
	syms := []string{"a", "z", "A", "Z", "0", "9", "+", "-", ".", "_", " ", "ä", "/", ":", "@", "[", "`", "{", "\n", "\uFFFD", "\xff"}
	n := c.quickOr(4, 5)
	rest := texts(syms, n-1)
	overList(c, "names", fmt.Sprintf("all names of up to %d of %d symbols", n, len(syms)), syms, 1, func(w *W, a string) {
		w.Case(func() string { return fmt.Sprintf("names beginning with %q", a) }, func() {
			for _, x := range rest {
				judgeName(w, a+x)
			}
		})
	})
	rs := []rune{}
	for r := rune(0); r <= utf8.MaxRune; r++ {
		if r < 0xD800 || r > 0xDFFF {
			rs = append(rs, r)
		}
	}
	c.Phase("names-runes", "every rune alone, at the begin, in the middle and at the end of a name", (len(rs)+255)/256, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("runes from %U", rs[u*256]) }, func() {
			for i := u * 256; i < len(rs) && i < (u+1)*256; i++ {
				s := string(rs[i])
				for _, x := range []string{s, s + "a", "a" + s, "a" + s + "b"} {
					judgeName(w, x)
				}
			}
		})
	})
	sized(c, "names-long", "names of 1..200 bytes with a wrong byte at each place", 1, 200, 1025, func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("length %d", n) }, func() {
			s := strings.Repeat("aZ09+-._", n/8+1)[:n]
			judgeName(w, s)
			for i := range s {
				for _, x := range []string{" ", "\xff", "ä", "", "*", "_"} {
					judgeName(w, s[:i]+x+s[i+1:])
				}
			}
		})
	})
	c.Phase("structs", fmt.Sprintf("%d grammar structs: all of up to 2 fields of 16 kinds, all of 3 fields of 7 kinds, 4..32 fields with one or two other ones, every byte in a name tag, embedded rules; every rule with and without reader and name", len(shapes)), (len(shapes)+7)/8, func(w *W, u int) {
		for i := u * 8; i < len(shapes) && i < (u+1)*8; i++ {
			sh := shapes[i]
			w.Case(func() string { return fmt.Sprintf("struct %+v", reflect.TypeOf(sh.new()).Elem()) }, func() { judgeShape(w, sh) })
		}
	})
	grams := []struct {
		name string
		new  func() tok.Grammar
	}{
		{"json", func() tok.Grammar { return grammar.JSON() }},
		{"mxt", func() tok.Grammar { return grammar.MXT() }},
		{"lua", func() tok.Grammar { return grammar.Lua() }},
	}
	c.Phase("grammars", "the built-in grammars", len(grams), func(w *W, u int) {
		w.Case(func() string { return grams[u].name }, func() { judgeGrammar(w, grams[u].new()) })
	})
	// lines
	parts := cat(richLeaves()[:40], allUnary(baseLeaves()), allBinary(fewLeaves(), fewLeaves()))
	names := []string{"a", "b-c", "", "not a name!"}
	c.Phase("lines", "GrammarLines for all lists of up to 3 rules", len(parts), func(w *W, u int) {
		e := parts[u]
		w.Case(func() string { return e.String() }, func() {
			mkRule := func(e *ex, n string) *tok.Rule {
				return &tok.Rule{Name: n, Reader: (&builder{w: w}).build(e)}
			}
			check := func(es []*ex, ns []string) {
				w.trans++
				rules, want := []*tok.Rule{}, []string{}
				for i, x := range es {
					rules = append(rules, mkRule(x, ns[i]))
					want = append(want, ns[i]+": "+x.what)
				}
				got := tok.GrammarLines(rules)
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					w.Fail("lines %q, expected %q", got, want)
				}
				for i, r := range rules {
					if r.Rule() != want[i] || r.What() != ns[i] {
						w.Fail("rule %q described by %q as %q", ns[i], r.Rule(), r.What())
					}
				}
				// every rule more than once, side by side and apart
				twice, want2 := append([]*tok.Rule{}, rules...), append([]string{}, want...)
				for i := len(rules) - 1; i >= 0; i-- {
					twice, want2 = append(twice, rules[i], rules[i]), append(want2, want[i], want[i])
				}
				if got := tok.GrammarLines(twice); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want2) {
					w.Fail("lines %q, expected %q", got, want2)
				}
			}
			check(nil, nil)
			for _, n := range names {
				check([]*ex{e}, []string{n})
				for _, e2 := range parts[:20] {
					check([]*ex{e, e2}, []string{n, "x"})
					check([]*ex{e2, e, e2}, []string{n, n, "x"})
				}
			}
		})
	})
}

func exported(g tok.Grammar) []string {
	t := reflect.TypeOf(g).Elem()
	res := []string{}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Type == reflect.TypeOf(tok.Rule{}) && t.Field(i).PkgPath == "" {
			res = append(res, t.Field(i).Name)
		}
	}
	return res
}

func fieldRule(g tok.Grammar, name string) *tok.Rule {
	return reflect.ValueOf(g).Elem().FieldByName(name).Addr().Interface().(*tok.Rule)
}

func judgeShape(w *W, sh shape) {
	cols := []shapeField{}
	bad := false
	for _, f := range sh.fields {
		if f.collected {
			cols = append(cols, f)
			if f.tag != "" && !nameModel(f.tag) {
				bad = true
			}
		}
	}
	g := sh.new()
	lit := tok.Lit("x")
	// collected rules
	rules := tok.CollectRules(g)
	w.trans++
	if len(rules) != len(cols) {
		w.Fail("CollectRules: %d rules, expected %d", len(rules), len(cols))
		return
	}
	for i, f := range cols {
		if rules[i] != fieldRule(g, f.name) {
			w.Fail("CollectRules: rule %d is not the field %s", i, f.name)
			return
		}
		rules[i].Name = "init" + f.name
		rules[i].Reader = lit
	}
	// names
	err := tok.SetRuleNames(g)
	w.trans++
	if (err != nil) != bad {
		w.Fail("SetRuleNames: error %v, expected %v", err, bad)
	}
	panicked := func() (p bool) {
		defer func() { p = recover() != nil }()
		tok.MustSetRuleNames(g)
		return false
	}()
	if panicked != bad {
		w.Fail("MustSetRuleNames: panic %v, expected %v", panicked, bad)
	}
	for i, f := range cols {
		r := rules[i]
		want := f.tag
		if f.tag == "" {
			want = "init" + f.name
		}
		if r.Name != want && !(bad && f.tag != "" && r.Name == "init"+f.name) {
			w.Fail("SetRuleNames: name of %s is %q, expected %q", f.name, r.Name, want)
		}
		if r.Reader != lit {
			w.Fail("SetRuleNames changed the reader of %s", f.name)
		}
		if !nameModel(r.Name) && f.tag != "" && r.Name == f.tag {
			w.Fail("SetRuleNames set the invalid name %q", r.Name)
		}
	}
	v := reflect.ValueOf(g).Elem()
	for _, f := range sh.fields {
		if f.collected {
			continue
		}
		x := v.FieldByName(f.name)
		if !x.IsZero() {
			w.Fail("the field %s was changed", f.name)
		}
	}
	// checks
	names := []string{"ok", "", "1x", "b.c-d_e+f", "a b"}
	var walk func(i int, ok bool)
	walk = func(i int, ok bool) {
		if i == len(cols) {
			w.trans++
			if err := tok.CheckRules(g); (err == nil) != ok {
				w.Fail("CheckRules of %q: error %v, expected ok=%v", ruleState(rules), err, ok)
			}
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				tok.MustCheckRules(g)
				return false
			}()
			if panicked == ok {
				w.Fail("MustCheckRules of %q: panic %v", ruleState(rules), panicked)
			}
			return
		}
		for _, n := range names {
			for _, r := range []tok.Reader{lit, nil, tok.InvalidReader("x")} {
				rules[i].Name, rules[i].Reader = n, r
				walk(i+1, ok && nameModel(n) && r != nil)
			}
		}
	}
	if len(cols) <= 3 {
		walk(0, true)
		return
	}
	// one or two rules that are not in order
	for i := range rules {
		for j := range rules {
			for _, n := range names {
				for _, r := range []tok.Reader{lit, nil} {
					for k, x := range rules {
						x.Name, x.Reader = fmt.Sprintf("ok%d", k), lit
					}
					rules[j].Name = n
					rules[i].Reader = r
					w.trans++
					if err := tok.CheckRules(g); (err == nil) != (nameModel(n) && r != nil) {
						w.Fail("CheckRules of %q: error %v", ruleState(rules), err)
					}
				}
			}
		}
	}
}

func ruleState(rules []*tok.Rule) []string {
	res := []string{}
	for _, r := range rules {
		res = append(res, fmt.Sprintf("%s/%v", r.Name, r.Reader != nil))
	}
	return res
}

func judgeGrammar(w *W, g tok.Grammar) {
	fields := exported(g)
	rules := g.Grammar()
	if len(rules) != len(fields) {
		w.Fail("%d rules, expected %d", len(rules), len(fields))
		return
	}
	t := reflect.TypeOf(g).Elem()
	lines := tok.GrammarLines(rules)
	seen := map[string]bool{}
	if len(lines) != len(rules) {
		w.Fail("%d lines for %d rules", len(lines), len(rules))
	}
	for i, f := range fields {
		w.trans++
		r := rules[i]
		sf, _ := t.FieldByName(f)
		if r != fieldRule(g, f) {
			w.Fail("rule %d is not the field %s", i, f)
		}
		if r.Name != sf.Tag.Get("name") || r.Name == "" || seen[r.Name] {
			w.Fail("name of %s is %q", f, r.Name)
		}
		seen[r.Name] = true
		if r.Reader == nil {
			w.Fail("no reader for %s", f)
			continue
		}
		if tok.CheckRuleName(r.Name) != nil {
			w.Fail("invalid name %q", r.Name)
		}
		if lines[i] != r.Name+": "+r.Reader.What() {
			w.Fail("line %q of the rule %s", lines[i], r.Name)
		}
	}
	if err := tok.CheckRules(g); err != nil {
		w.Fail("CheckRules: %v", err)
	}
	if tok.AnyHasInvalidReader(lines) || tok.HasInvalidReader(g.What()) {
		w.Fail("an invalid reader in %q", lines)
	}
	// a second SetRuleNames changes nothing
	if err := tok.SetRuleNames(g); err != nil {
		w.Fail("SetRuleNames: %v", err)
	}
	if fmt.Sprint(tok.GrammarLines(rules)) != fmt.Sprint(lines) {
		w.Fail("SetRuleNames changed the lines")
	}
}

// ---------------------------------------------------------------------- C27

type notAReader struct{ Reader string }

func wrongArgs() []interface{} {
	s := "a"
	r := 'a'
	lit := tok.Lit("a")
	return []interface{}{nil, 1, int8(97), int16(97), int64(97), uint(97), uint8('a'), uint16(97), uint32(97), uint64(97), uintptr(97), 1.5, float32(97), complex(1, 0), true, []string{"a"}, []byte("a"), []rune("a"), [1]rune{'a'}, struct{}{}, notAReader{"a"}, &notAReader{"a"}, &s, &r, &lit, []tok.Reader{lit}, fmt.Errorf("a"), func() {}, func(*tok.Scanner) error { return nil }, tok.Lit, map[string]int{}, make(chan int), tok.Rule{Name: "a", Reader: lit}, tok.NewScanner("a"), tok.Marker(0), tok.MakeToken(0, 1), tok.NewGraph("a")}
}

var c27Texts = []string{"", "a", "ab", "aa", "b", " a", "1", "[a]", "ä", "\xff", "nil", "::INVALID-READER::", "aaaa"}

// alwaysFails: the reader never reads anything and describes itself as invalid.
func alwaysFails(w *W, what string, r tok.Reader) {
	if r == nil {
		w.Fail("%s: no reader", what)
		return
	}
	if !tok.HasInvalidReader(r.What()) || !strings.Contains(r.What(), tok.InvalidReaderMarker) || !tok.AnyHasInvalidReader([]string{"x", r.What()}) {
		w.Fail("%s: not marked as invalid: %q", what, r.What())
	}
	for _, t := range c27Texts {
		for p := 0; p <= len(t); p++ {
			w.trans++
			s := at(w, t, p)
			if err := r.Read(s); err == nil || int(s.Mark()) != p {
				w.Fail("%s: reads %q at %d: error %v, at %d", what, t, p, err, s.Mark())
			}
		}
	}
}

func checkC27(c *Ctx) {
	single := []struct {
		name string
		f    func(x interface{}) tok.Reader
	}{
		{"Opt", func(x interface{}) tok.Reader { return tok.Opt(x) }},
		{"Zom", func(x interface{}) tok.Reader { return tok.Zom(x) }},
		{"Many", func(x interface{}) tok.Reader { return tok.Many(x) }},
		{"To", func(x interface{}) tok.Reader { return tok.To(x) }},
		{"Past", func(x interface{}) tok.Reader { return tok.Past(x) }},
	}
	list := []struct {
		name string
		f    func(x ...interface{}) tok.Reader
	}{
		{"Any", func(x ...interface{}) tok.Reader { return tok.Any(x...) }},
		{"Seq", func(x ...interface{}) tok.Reader { return tok.Seq(x...) }},
		{"SkipSeq", func(x ...interface{}) tok.Reader { return tok.SkipSeq(tok.Zom(' '), x...) }},
		{"SkipWSSeq", func(x ...interface{}) tok.Reader { return tok.SkipWSSeq(x...) }},
	}
	wrong := wrongArgs()
	c.Phase("arguments", "9 constructors, 37 values of wrong types at every place of up to 5 arguments, 13 texts at every position", len(wrong), func(w *W, u int) {
		x := wrong[u]
		w.Case(func() string { return fmt.Sprintf("argument of type %T", x) }, func() {
			for _, k := range single {
				alwaysFails(w, fmt.Sprintf("%s(%T)", k.name, x), k.f(x))
			}
			for _, k := range list {
				for n := 1; n <= 5; n++ {
					for i := 0; i < n; i++ {
						args := make([]interface{}, n)
						for j := range args {
							args[j] = []interface{}{"a", 'a', tok.Lit("a")}[j%3]
						}
						args[i] = x
						alwaysFails(w, fmt.Sprintf("%s with %T as argument %d of %d", k.name, x, i+1, n), k.f(args...))
						for j := range args {
							args[j] = x
						}
						alwaysFails(w, fmt.Sprintf("%s with only %T", k.name, x), k.f(args...))
					}
				}
			}
		})
	})
	// range strings
	syms := []string{"a", "-", "z", "ä", "\xff", "0"}
	n := c.quickOr(7, 8)
	rest := texts(syms, n-1)
	overList(c, "ranges", fmt.Sprintf("all range strings of up to %d of %d symbols", n, len(syms)), syms, 1, func(w *W, h string) {
		w.Case(func() string { return fmt.Sprintf("range strings beginning with %q", h) }, func() {
			for _, x := range append([]string{""}, rest...) {
				str := h + x
				if x == "" && h == syms[0] {
					judgeRanges(w, "")
				}
				judgeRanges(w, str)
				if w.failed {
					return
				}
			}
		})
	})
	c.Phase("bounds", "BuildBetweenAny with 0..33 bounds", 34, func(w *W, n int) {
		w.Case(func() string { return fmt.Sprintf("%d bounds", n) }, func() {
			bs := []rune{}
			for i := 0; i < n; i++ {
				bs = append(bs, 'a'+rune(i/2))
			}
			r := tok.BuildBetweenAny(bs...)
			if n%2 == 1 {
				alwaysFails(w, fmt.Sprintf("%d bounds", n), r)
			} else if tok.HasInvalidReader(r.What()) {
				w.Fail("%d bounds are invalid: %q", n, r.What())
			} else if n > 0 {
				s := tok.NewScanner(string('a' + rune(n/2-1)))
				if r.Read(s) != nil || !s.AtEnd() {
					w.Fail("%d bounds: the last range does not read", n)
				}
			}
		})
	})
	c.Phase("free", "InvalidReader with formats and arguments", 1, func(w *W, u int) {
		w.Case(func() string { return "InvalidReader" }, func() {
			alwaysFails(w, "empty", tok.InvalidReader(""))
			alwaysFails(w, "text", tok.InvalidReader("some text"))
			alwaysFails(w, "arguments", tok.InvalidReader("%s %d", "a", 1))
			alwaysFails(w, "percent", tok.InvalidReader("100%%"))
			alwaysFails(w, "wrapped", tok.InvalidReader("%w", fmt.Errorf("x")))
			alwaysFails(w, "missing", tok.InvalidReader("%d"))
		})
	})
	// the marker
	m := tok.InvalidReaderMarker
	c.Phase("marker", "HasInvalidReader and AnyHasInvalidReader for all changes of the marker", len(m)+1, func(w *W, i int) {
		w.Case(func() string { return fmt.Sprintf("place %d", i) }, func() {
			list := []string{m[:i], m[i:], m[:i] + "x" + m[i:], "x" + m + m[:i], m + m, m[i:] + m[:i], strings.ToLower(m), m[:i] + m[:i], "[ " + m + "{x} ]", "", ":"}
			if i < len(m) {
				list = append(list, m[:i]+m[i+1:], m[:i]+"?"+m[i+1:])
			}
			for _, a := range list {
				w.trans++
				if tok.HasInvalidReader(a) != strings.Contains(a, m) {
					w.Fail("HasInvalidReader(%q) is %v", a, tok.HasInvalidReader(a))
				}
				for _, l := range [][]string{{a}, {a, "x"}, {"x", a}, {"", "x", a, "y"}} {
					if tok.AnyHasInvalidReader(l) != strings.Contains(a, m) {
						w.Fail("AnyHasInvalidReader(%q)", l)
					}
				}
			}
			for k := 0; k < 256; k++ {
				// any byte before and behind of the marker or of what is left of it
				x := string([]byte{byte(k)})
				for _, y := range []string{x + m, m + x, x + m + x, x + m + "{" + x, x + m[:i], m[i:] + x, x + m[i:] + m[:i] + x} {
					w.trans++
					if want := strings.Contains(y, m); tok.HasInvalidReader(y) != want || tok.AnyHasInvalidReader([]string{y}) != want || tok.AnyHasInvalidReader([]string{x, y}) != want || tok.AnyHasInvalidReader([]string{y, x}) != want {
						w.Fail("the marker in %q: %v", y, want)
					}
				}
			}
			if tok.AnyHasInvalidReader(nil) || tok.AnyHasInvalidReader([]string{m[:len(m)/2], m[len(m)/2:]}) {
				w.Fail("AnyHasInvalidReader finds what is not there")
			}
		})
	})
	words := []string{"", "x", m, m + "{y}", m[:len(m)-1]}
	lists := [][]int{{}}
	for i, d := 0, 0; d < 5; d++ {
		for end := len(lists); i < end; i++ {
			for k := range words {
				lists = append(lists, append(lists[i][:len(lists[i]):len(lists[i])], k))
			}
		}
	}
	c.Phase("marker-lists", "AnyHasInvalidReader for all lists of up to 5 of 5 words", len(lists), func(w *W, i int) {
		w.Case(func() string { return fmt.Sprintf("list %v", lists[i]) }, func() {
			l, want := []string{}, false
			for _, k := range lists[i] {
				l = append(l, words[k])
				want = want || k == 2 || k == 3
			}
			w.trans++
			if tok.AnyHasInvalidReader(l) != want {
				w.Fail("AnyHasInvalidReader(%q) is %v", l, !want)
			}
		})
	})
	// inside of expressions
	inv := []*ex{}
	for i := range invalidArgs {
		inv = append(inv, eInvalid(i))
	}
	wrap := func(l []*ex) []*ex {
		res := allUnary(l)
		for _, e := range l {
			res = append(res, eMap("m", e), ePick("p", e), eMonitor("l", e), eProbe(e), eSeq(eLit("a"), e, eLit("b")), eSeq(e, eRuneRaw('a')), eSeq(e, eBetween('a', 'z')), eSeq(e, eNamed("n", eLit("a"))), eAny(eLit("a"), eLit("b"), e), eSkipWS(eLit("a"), e), eSkipSeq(e, eLit("a")), eJBeg("j", e))
			for k := 0; k < nBinary; k++ {
				res = append(res, binary(k, e, eLit("a")), binary(k, eLit("a"), e))
			}
		}
		return res
	}
	w1 := wrap(inv)
	w2 := wrap(wrap(inv[:1]))
	deep := append(append(append([]*ex{}, inv...), w1...), w2...)
	if c.thorough {
		deep = append(deep, wrap(w2)...)
	}
	c.Phase("inside", "an invalid reader inside of every combination of two combinators and wrappers (thorough: three)", (len(deep)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(deep) && i < (u+1)*64; i++ {
			e := deep[i]
			w.Case(func() string { return e.String() }, func() {
				w.trans++
				s := tok.NewScanner("")
				r := (&builder{w: w, basket: s.NewBasket(), log: &tok.Log{}}).build(e)
				rule := &tok.Rule{Name: "r", Reader: r}
				lines := tok.GrammarLines([]*tok.Rule{{Name: "x", Reader: tok.Lit("x")}, rule})
				if !tok.HasInvalidReader(r.What()) || !tok.HasInvalidReader(rule.Rule()) || !tok.AnyHasInvalidReader(lines) {
					w.Fail("not marked as invalid: %q", r.What())
				}
				for _, l := range [][]string{{r.What()}, {"", r.What()}, {r.What(), "x"}, {"x", r.What(), ""}, {rule.Rule()}} {
					if !tok.AnyHasInvalidReader(l) {
						w.Fail("no invalid reader found in %q", l)
					}
				}
				if n := tok.Named("name", r); tok.HasInvalidReader(n.What()) || tok.HasInvalidReader(rule.What()) {
					w.Fail("the custom name is not used: %q %q", n.What(), rule.What())
				}
			})
		}
	})
	// valid expressions
	var spaces []space
	for _, sp := range exprSpaces(c) {
		sp.texts = nil
		spaces = append(spaces, sp)
	}
	explore(c, renamed(spaces, "valid-"), func() judge { return &judgeValid{} })
	c.Phase("grammars", "the built-in grammars and readers", 1, func(w *W, u int) {
		w.Case(func() string { return "grammars" }, func() {
			for _, g := range []tok.Grammar{grammar.JSON(), grammar.MXT(), grammar.Lua()} {
				if tok.AnyHasInvalidReader(tok.GrammarLines(g.Grammar())) {
					w.Fail("an invalid reader in %s", g.What())
				}
			}
			for _, r := range []tok.Reader{tok.Digit(), tok.HexDigit(), tok.NL(), tok.WS(), tok.RuleName(), tok.AtEnd(), grammar.LuaComment(), grammar.LuaNumeral(), grammar.LuaString()} {
				if tok.HasInvalidReader(r.What()) {
					w.Fail("an invalid reader: %q", r.What())
				}
			}
		})
	})
}

func judgeRanges(w *W, str string) {
	w.states++
	rs := []rune(str)
	ok := len(rs)%3 == 0
	for i := 1; ok && i < len(rs); i += 3 {
		ok = rs[i] == '-'
	}
	for _, r := range []tok.Reader{tok.BetweenAny(str), tok.Set(str, ""), tok.Set(str, "a")} {
		w.trans++
		if tok.HasInvalidReader(r.What()) == ok {
			w.Fail("range string %q: valid %v, expected %v: %q", str, !ok, ok, r.What())
		}
		if !ok {
			for _, t := range []string{"a", "-", "z", "ä", ""} {
				s := tok.NewScanner(t)
				if err := r.Read(s); err == nil || !s.AtStart() {
					w.Fail("range string %q reads %q", str, t)
				}
			}
		}
	}
}

type judgeValid struct{}

func hasInvalid(e *ex) bool {
	if e.k == kInvalid {
		return true
	}
	for _, s := range e.sub {
		if hasInvalid(s) {
			return true
		}
	}
	return false
}

func (j *judgeValid) begin(w *W, e *ex) {
	w.trans++
	s := tok.NewScanner("")
	r := (&builder{w: w, basket: s.NewBasket(), log: &tok.Log{}}).build(e)
	if got := tok.HasInvalidReader(r.What()); got != hasInvalid(e) {
		w.Fail("marked as invalid: %v: %q", got, r.What())
	}
}

func (j *judgeValid) text(w *W, t string, p int) {}
func (j *judgeValid) end(w *W)                   {}

// ---------------------------------------------------------------------- C31

type judgeWhat struct {
	e  *ex
	r  tok.Reader
	r2 tok.Reader
	n  int
}

func (j *judgeWhat) begin(w *W, e *ex) {
	j.e, j.n = e, 0
	s := tok.NewScanner("")
	b := &builder{w: w, basket: s.NewBasket(), log: &tok.Log{}}
	j.r = b.build(e)
	j.is(w, "new", j.r)
	// invisible wrappers at every node
	i := 0
	d := decorate(e, func(n *ex) *ex {
		i++
		switch i % 3 {
		case 0:
			return eMap("m", n)
		case 1:
			return ePick("p", n)
		}
		return eMonitor("l", n)
	})
	if !strings.Contains(e.what, "\x00") {
		b2 := &builder{w: w, basket: b.basket, log: b.log}
		j.r2 = b2.build(d)
		j.is(w, "wrapped", j.r2)
	}
	// names
	rule := &tok.Rule{Name: "rule", Reader: j.r}
	lines := tok.GrammarLines([]*tok.Rule{rule})
	if rule.What() != "rule" || rule.Rule() != "rule: "+e.what || len(lines) != 1 || lines[0] != rule.Rule() {
		w.Fail("rule described by %q and %q, lines %q; expected %q", rule.What(), rule.Rule(), lines, e.what)
	}
	rule.Map(func(tok.Token) {})
	rule.Pick(b.basket)
	rule.Monitor(b.log)
	if rule.What() != "rule" || rule.Rule() != "rule: "+e.what {
		w.Fail("wrapped rule described by %q and %q; expected %q", rule.What(), rule.Rule(), e.what)
	}
	if n := tok.Named("a name", j.r); n.What() != "a name" {
		w.Fail("named reader described by %q", n.What())
	}
	if x := tok.Wrap(e.what, func(s *tok.Scanner) error { return nil }); x.What() != e.what {
		w.Fail("wrapped function described by %q, expected %q", x.What(), e.what)
	}
}

func (j *judgeWhat) is(w *W, when string, r tok.Reader) {
	w.trans++
	if got := r.What(); got != j.e.what {
		w.Fail("%s: described by %q, expected %q", when, got, j.e.what)
	}
}

func (j *judgeWhat) text(w *W, t string, p int) {
	j.n++
	w.trans++
	s := at(w, t, p)
	j.r.Read(s)
	if j.r2 != nil {
		j.r2.Read(at(w, t, p))
	}
	if j.n&(j.n-1) == 0 {
		j.is(w, fmt.Sprintf("after %q", t), j.r)
	}
}

func (j *judgeWhat) end(w *W) {
	j.is(w, "after all texts", j.r)
	if j.r2 != nil {
		j.is(w, "wrapped, after all texts", j.r2)
	}
}

func checkC31(c *Ctx) {
	few := []string{"", "a", "ab", "ba", "aab", "ä", "abab", "\xff", "1", "-12", "true", " a b"}
	var spaces []space
	for _, sp := range exprSpaces(c) {
		sp.every = false
		if !strings.HasPrefix(sp.name, "sizes") {
			sp.texts = few
		} else {
			sp.texts = sp.texts[:min(24, len(sp.texts))]
		}
		spaces = append(spaces, sp)
	}
	spaces = append(spaces, janusSpaces(c)...)
	explore(c, spaces, func() judge { return &judgeWhat{} })
	// parameters of leaves
	rs := []rune{}
	for r := rune(-1); r < rune(c.quickOr(0x3100, 0x110000)); r++ {
		if r < 0xD801 || r > 0xDFFF {
			rs = append(rs, r)
		}
	}
	if !c.thorough {
		rs = append(rs, 0xD800, 0xFEFF, 0xFFFD, 0x1F600, 0xE0001, 0x10FFFF)
	}
	rs = append(rs, 0x110000)
	c.Phase("runes", "every rune below U+3100 (thorough: every rune) and selected ones as the parameter of each leaf", len(rs), func(w *W, u int) {
		r := rs[u]
		w.Case(func() string { return fmt.Sprintf("%U", r) }, func() {
			s := string(r)
			list := []*ex{eRune(r), eLit(s), eLit("a" + s + "\""), eAnyRune(s), eAnyRune(s + "x"), eBetween(r, r), eBetween('a', r), eBetween(r, 'b'), eHoley(r, r, s), eHoley(0, r, "a"+s), eFold(s), eBuildBetween(s + s), eBool(s), eAnyFold("a" + strings.TrimSpace(s))}
			if r >= 0 && r != 0xD800 && r < 0x110000 {
				list = append(list, eBetweenAny(s+"-"+s), eSet("a-"+s, s), eSet("", s))
			}
			for _, e := range list {
				w.trans++
				if e.k == kAnyFold && len(strings.Fields(e.str)) != 1 {
					continue
				}
				if got := (&builder{w: w}).build(e).What(); got != e.what {
					w.Fail("%s described by %q, expected %q", e, got, e.what)
				}
				if x := eUn(kNot, e); (&builder{w: w}).build(x).What() != x.what {
					w.Fail("%s is described wrongly", x)
				}
			}
		})
	})
	// parts that are changed after the first use
	wrap := wrapAll
	olds, news := changed(c)
	c.Phase("late", "rules renamed and fields of value readers set after the description was asked for and texts were read, inside of every combination of two combinators and wrappers (thorough: three)", (len(olds)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(olds) && i < (u+1)*64; i++ {
			e, e2 := olds[i], news[i]
			w.Case(func() string { return e.String() + " changed to " + e2.String() }, func() {
				s := tok.NewScanner("")
				b := &builder{w: w, basket: s.NewBasket(), log: &tok.Log{}}
				r := b.build(e)
				rule := &tok.Rule{Name: "r", Reader: r}
				w.trans += 3
				if r.What() != e.what || rule.Rule() != "r: "+e.what {
					w.Fail("described by %q and %q, expected %q", r.What(), rule.Rule(), e.what)
				}
				for _, t := range []string{"", "a", "1", "true", "ab a"} {
					r.Read(tok.NewScanner(t))
				}
				b.change()
				if r.What() != e2.what || rule.Rule() != "r: "+e2.what {
					w.Fail("then described by %q and %q, expected %q", r.What(), rule.Rule(), e2.what)
				}
				r.Read(tok.NewScanner("q"))
				if r.What() != e2.what {
					w.Fail("after a read described by %q, expected %q", r.What(), e2.what)
				}
			})
		}
	})
	strange := []*ex{}
	for _, n := range strangeInfos {
		strange = append(strange, eNamed(n, eLit("a")), eRule(n, eLit("a")), eLit(n), eBool(n), eWrap(n), eAnyRune(n))
	}
	strange = append(append(strange, wrap(strange)...), wrap(wrap(strange[12:24]))...)
	c.Phase("names", fmt.Sprintf("%d names and literals (percent signs, quotes, line breaks, ...) inside of every combinator and wrapper (some of them: every combination of two)", len(strangeInfos)), (len(strange)+63)/64, func(w *W, u int) {
		for i := u * 64; i < len(strange) && i < (u+1)*64; i++ {
			e := strange[i]
			w.Case(func() string { return e.String() }, func() {
				s := tok.NewScanner("")
				r := (&builder{w: w, basket: s.NewBasket(), log: &tok.Log{}}).build(e)
				for _, n := range []string{"a%db", "", "r", strangeInfos[i%len(strangeInfos)]} {
					rule := &tok.Rule{Name: n, Reader: r}
					w.trans += 2
					if r.What() != e.what || rule.Rule() != n+": "+e.what || rule.What() != n {
						w.Fail("described by %q and %q, expected %q", r.What(), rule.Rule(), e.what)
					}
				}
			})
		}
	})
	leaves := richLeaves()
	some := append([]*ex{}, leaves...)
	for _, e := range leaves {
		some = append(some, eUn(kMany, e), eUn(kTo, e), eAny(eLit("a"), e, eLit("b")), eSeq(e, eLit("a")))
	}
	c.Phase("many-reads", fmt.Sprintf("%d readers: 1100 reads of each of 13 symbols, alternating ones and many in one text", len(some)), len(some), func(w *W, u int) {
		e := some[u]
		w.Case(func() string { return e.String() }, func() {
			s := tok.NewScanner("")
			r := (&builder{w: w, basket: s.NewBasket(), log: &tok.Log{}}).build(e)
			for _, t := range append([]string{"ab", "ba"}, richTexts...) {
				s := tok.NewScanner(strings.Repeat(t, 20))
				for k := 0; k < 1100; k++ {
					if s.AtEnd() {
						s.ToStart()
					}
					p := s.Mark()
					r.Read(s)
					s.ToMarker(p)
					s.MoveRunes(1)
				}
				w.trans++
				if r.What() != e.what {
					w.Fail("after 1100 reads of %q described by %q, expected %q", t, r.What(), e.what)
				}
				s.ToStart()
				for s.Use(r) == nil && !s.AtEnd() {
					if !s.MoveRunes(1) {
						break
					}
				}
				if r.What() != e.what {
					w.Fail("after reads of %q described by %q, expected %q", t, r.What(), e.what)
				}
			}
		})
	})
	c.Phase("constants", "numbers as parameters, built-in readers, grammars before and after reads", 1, func(w *W, u int) {
		w.Case(func() string { return "constants" }, func() {
			for _, b := range []int{-1, 0, 8, 10, 16, 100} {
				for _, n := range []int{-1, 0, 8, 16, 32, 64, 1000} {
					for _, e := range []*ex{eInt(b, n), eUint(b, n), eTimes(n, eLit("a"))} {
						if got := (&builder{w: w}).build(e).What(); got != e.what {
							w.Fail("%s described by %q, expected %q", e, got, e.what)
						}
					}
				}
			}
			for _, x := range []struct {
				r    tok.Reader
				want string
			}{{tok.Digit(), "<09>"}, {tok.HexDigit(), "[< 09 af AF >]"}, {tok.WS(), `[" \r\n\t"]`}, {tok.NL(), `[ "\n" "\r\n" ]`}, {tok.AtEnd(), "@END"}, {tok.RuleName(), "rulename"}, {grammar.JSON(), "json"}, {grammar.MXT(), "mxt"}, {grammar.Lua(), "lua"}} {
				w.trans++
				if x.r.What() != x.want {
					w.Fail("described by %q, expected %q", x.r.What(), x.want)
				}
				for _, t := range few {
					x.r.Read(tok.NewScanner(t))
				}
				if x.r.What() != x.want {
					w.Fail("after reads described by %q, expected %q", x.r.What(), x.want)
				}
			}
		})
	})
	for _, g := range grams() {
		g := g
		list := []string{}
		for _, d := range g.docs {
			for i := 0; i <= len(d); i++ {
				list = append(list, d[:i], d[i:])
			}
		}
		list = append(list, texts(g.toks, 2)...)
		overList(c, "grammar-"+g.name, "lines of the grammar before and after each text: prefixes and suffixes of the documents, all texts of two tokens", uniq(list), 32, func(w *W, t string) {
			w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
				w.trans++
				in := g.fresh()
				before := tok.GrammarLines(in.g.Grammar())
				what := in.g.What()
				s := tok.NewScanner(t)
				in.g.Read(s)
				for _, r := range in.readers {
					r.Read(tok.NewScanner(t))
				}
				after := tok.GrammarLines(in.g.Grammar())
				if fmt.Sprint(before) != fmt.Sprint(after) || what != in.g.What() {
					w.Fail("the description was changed from %q to %q", before, after)
				}
				s2 := tok.NewScanner(t)
				tok.MonitorGrammar(in.g)
				s2.NewBasketFor(in.g)
				in.g.Read(s2)
				after = tok.GrammarLines(in.g.Grammar())
				if fmt.Sprint(before) != fmt.Sprint(after) {
					w.Fail("picking and monitoring changed the description from %q to %q", before, after)
				}
			})
		})
	}
}

// wrapAll puts every one of some expressions into every combinator and wrapper.
func wrapAll(l []*ex) []*ex {
	res := allUnary(l)
	for _, e := range l {
		a, b := eLit("a"), eLit("b")
		res = append(res, eMap("m", e), ePick("p", e), eMonitor("l", e), eSeq(e), eSeq(a, e, b), eSeq(b, a, b, a, e), eAny(e), eAny(a, b, e), eAny(a, b, b, a, e, a), eSkipWS(e), eSkipWS(a, e), eSkipWS(a, b, e, b, a), eSkipSeq(e, a), eSkipSeq(a, b, e), eJBeg("j", e), eTimes(2, e))
		for k := 0; k < nBinary; k++ {
			res = append(res, binary(k, e, a), binary(k, a, e), binary(k, e, e))
		}
	}
	return res
}

// changed lists expressions before and after change() of what was built for them.
func changed(c *Ctx) ([]*ex, []*ex) {
	olds := []*ex{eRule("", eLit("a")), eRule("old", eLit("a")), eRule("old", eSeq(eLit("a"), eLit("b"))), eInt(10, 8), eUint(10, 8), eBool("l")}
	news := []*ex{eRule("new", eLit("a")), eRule("new", eLit("a")), eRule("new", eSeq(eLit("a"), eLit("b"))), eInt(16, 64), eUint(16, 64), eBool("U")}
	olds, news = append(append(olds, wrapAll(olds)...), wrapAll(wrapAll(olds))...), append(append(news, wrapAll(news)...), wrapAll(wrapAll(news))...)
	if c.thorough {
		olds, news = append(olds, wrapAll(wrapAll(wrapAll(olds[1:2])))...), append(news, wrapAll(wrapAll(wrapAll(news[1:2])))...)
	}
	return olds, news
}

func (b *builder) change() {
	for _, x := range b.rules {
		x.Name = "new"
	}
	for _, x := range b.ints {
		x.Base, x.BitSize = 16, 64
	}
	for _, x := range b.uints {
		x.Base, x.BitSize = 16, 64
	}
	for _, x := range b.bools {
		x.Format = "U"
	}
}
