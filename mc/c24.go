package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func init() {
	register("C24", "all texts up to a bound over the symbols of each kind of lexical element, read with the rule of the grammar and with the separate reader; consumed text compared with a handwritten scanner of Lua 5.4", checkC24)
}

// ------------------------------------------------------- reference scanner
// All functions return the end of the element at p or -1.

var luaReserved = []string{"and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while"}

func isLetter(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}

func isWordByte(b byte) bool { return isLetter(b) || b >= '0' && b <= '9' }

func lexWord(t string, p int) int {
	if p >= len(t) || !isLetter(t[p]) {
		return -1
	}
	for p < len(t) && isWordByte(t[p]) {
		p++
	}
	return p
}

func lexName(t string, p int) int {
	e := lexWord(t, p)
	if e < 0 {
		return -1
	}
	for _, k := range luaReserved {
		if t[p:e] == k {
			return -1
		}
	}
	return e
}

func lexNumeral(t string, p int) int {
	run := func(q int, hex bool) int {
		for q < len(t) && (isD(t, q) || hex && isHex(t[q])) {
			q++
		}
		return q
	}
	mantissa := func(q int, hex bool) int {
		e := run(q, hex)
		if e > q {
			if has(t, e, ".") {
				e = run(e+1, hex)
			}
			return e
		}
		if has(t, q, ".") {
			e = run(q+1, hex)
			if e > q+1 {
				return e
			}
		}
		return -1
	}
	exponent := func(q int, marks string) int {
		if q < len(t) && strings.IndexByte(marks, t[q]) >= 0 {
			e := q + 1
			if has(t, e, "+") || has(t, e, "-") {
				e++
			}
			if f := run(e, false); f > e {
				return f
			}
		}
		return q
	}
	if has(t, p, "0x") || has(t, p, "0X") {
		if e := mantissa(p+2, true); e >= 0 {
			return exponent(e, "pP")
		}
	}
	if e := mantissa(p, false); e >= 0 {
		return exponent(e, "eE")
	}
	return -1
}

// lexLong: end of the long bracket at p.
func lexLong(t string, p int) int {
	if !has(t, p, "[") {
		return -1
	}
	q := p + 1
	for has(t, q, "=") {
		q++
	}
	if !has(t, q, "[") {
		return -1
	}
	closing := "]" + t[p+1:q] + "]"
	i := strings.Index(t[q+1:], closing)
	if i < 0 {
		return -1
	}
	return q + 1 + i + len(closing)
}

func opensLong(t string, p int) bool {
	if !has(t, p, "[") {
		return false
	}
	q := p + 1
	for has(t, q, "=") {
		q++
	}
	return has(t, q, "[")
}

// Texts with a backslash before "\n\r", which Lua takes as one line break, are
// not judged.
func lexString(t string, p int) int {
	if p >= len(t) || t[p] != '"' && t[p] != '\'' {
		return lexLong(t, p)
	}
	quote := t[p]
	p++
	for p < len(t) {
		b := t[p]
		switch {
		case b == quote:
			return p + 1
		case b == '\n' || b == '\r':
			return -1
		case b != '\\':
			p++
		default:
			p++
			if p >= len(t) {
				return -1
			}
			b = t[p]
			switch {
			case strings.IndexByte("abfnrtv\\\"'", b) >= 0:
				p++
			case has(t, p, "\r\n"):
				p += 2
			case b == '\n' || b == '\r':
				p++
			case b == 'z':
				p++
				for p < len(t) && strings.IndexByte(" \t\r\n\v\f", t[p]) >= 0 {
					p++
				}
			case b >= '0' && b <= '9':
				v := 0
				for i := 0; i < 3 && isD(t, p); i++ {
					v = v*10 + int(t[p]-'0')
					p++
				}
				if v > 255 {
					return -1
				}
			case b == 'x':
				if p+2 >= len(t) || !isHex(t[p+1]) || !isHex(t[p+2]) {
					return -1
				}
				p += 3
			case b == 'u':
				p++
				if !has(t, p, "{") {
					return -1
				}
				p++
				v, n := uint64(0), 0
				for p < len(t) && isHex(t[p]) {
					d := t[p] | 0x20
					if d >= 'a' {
						v = v*16 + uint64(d-'a') + 10
					} else {
						v = v*16 + uint64(t[p]-'0')
					}
					if v >= 1<<31 {
						return -1
					}
					n++
					p++
				}
				if n == 0 || !has(t, p, "}") {
					return -1
				}
				p++
			default:
				return -1
			}
		}
	}
	return -1
}

func lexComment(t string, p int) int {
	if !has(t, p, "--") {
		return -1
	}
	p += 2
	if opensLong(t, p) {
		return lexLong(t, p)
	}
	for p < len(t) && t[p] != '\n' && t[p] != '\r' {
		p++
	}
	return p
}

// ---------------------------------------------------------------- the check

type lexKind struct {
	name string
	lex  func(t string, p int) int
	rds  func(g *grammar.LuaReader) []tok.Reader
}

var lexKinds = []lexKind{
	{"name", lexName, func(g *grammar.LuaReader) []tok.Reader { return []tok.Reader{&g.Name} }},
	{"numeral", lexNumeral, func(g *grammar.LuaReader) []tok.Reader { return []tok.Reader{&g.Numeral, grammar.LuaNumeral()} }},
	{"string", lexString, func(g *grammar.LuaReader) []tok.Reader {
		return []tok.Reader{&g.LiteralString, grammar.LuaString()}
	}},
	{"comment", lexComment, func(g *grammar.LuaReader) []tok.Reader { return []tok.Reader{&g.Comment, grammar.LuaComment()} }},
}

type lexInst struct {
	rds [][]tok.Reader
}

func newLexInst() *lexInst {
	g := grammar.Lua()
	in := &lexInst{}
	for _, k := range lexKinds {
		in.rds = append(in.rds, k.rds(g))
	}
	return in
}

func (in *lexInst) judge(w *W, t string, p int, kinds ...int) {
	for _, k := range kinds {
		want := lexKinds[k].lex(t, p)
		w.states++
		for i, r := range in.rds[k] {
			w.trans++
			s := tok.NewScanner(t)
			s.Move(p)
			err := r.Read(s)
			got := int(s.Mark())
			if err != nil && want < 0 && got == p || err == nil && got == want {
				continue
			}
			w.Fail("%s reader %d at %d: error %v, now at %d; expected end %d (-1: failure)", lexKinds[k].name, i, p, err, got, want)
			return
		}
	}
}

func checkC24(c *Ctx) {
	hugeLua(c)
	const name, numeral, str, comment = 0, 1, 2, 3
	over := func(phase, bound string, heads []string, rests []string, kinds ...int) {
		overList(c, phase, bound, heads, 1, func(w *W, h string) {
			w.Case(func() string { return fmt.Sprintf("texts beginning with %q", h) }, func() {
				in := newLexInst()
				for _, x := range rests {
					if w.failed {
						return
					}
					t := h + x
					if strings.Contains(t, "\\\n\r") {
						continue
					}
					w.note = fmt.Sprintf("%q", t)
					in.judge(w, t, 0, kinds...)
				}
			})
		})
	}
	all := []int{name, numeral, str, comment}
	mixed := []string{"a", "_", "0", "x", "e", ".", "\"", "'", "\\", "-", "[", "]", "=", "\n", " ", "end", "ä", "\xff", "\x00"}
	n := c.quickOr(4, 5)
	over("mixed", fmt.Sprintf("all texts of up to %d of %d symbols, every kind of element", n, len(mixed)), textsExact(mixed, 1), texts(mixed, n-1), all...)
	// at every place
	overList(c, "places", "every place of every text of 3 symbols", textsExact(mixed, 3), 19, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("%q", t) }, func() {
			in := newLexInst()
			for p := 0; p <= len(t); p++ {
				in.judge(w, t, p, all...)
			}
		})
	})
	over("empty", "the empty text", []string{""}, []string{""}, all...)
	// names
	nameSyms := []string{"a", "z", "A", "Z", "_", "0", "9", "-", "ä", "@", "[", "`", "{", "/", ":", "\xff"}
	n = c.quickOr(4, 5)
	over("names", fmt.Sprintf("all texts of up to %d of %d symbols", n, len(nameSyms)), textsExact(nameSyms, 1), texts(nameSyms, n-1), name)
	words := []string{}
	for _, k := range append(append([]string{}, luaReserved...), "self", "global", "_ENV", "endif", "android", "doit", "orange", "index", "i", "fo") {
		for i := 0; i <= len(k); i++ {
			words = append(words, k[:i], k[i:])
			for _, x := range []string{"_", "a", "0", "E", "d", "s", "e", "i", "f", " ", ".", "-", "\xff"} {
				words = append(words, k[:i]+x+k[i:])
				if i < len(k) {
					words = append(words, k[:i]+x+k[i+1:])
				}
			}
			if i < len(k) {
				words = append(words, k[:i]+strings.ToUpper(k[i:i+1])+k[i+1:], k[:i]+k[i:i+1]+k[i:])
			}
		}
		words = append(words, strings.ToUpper(k))
		for _, k2 := range luaReserved {
			words = append(words, k+k2, k+"_"+k2, k+" "+k2)
		}
	}
	over("words", "reserved and other words, all their parts, one-rune changes and pairs", uniq(words), []string{"", " ", "(", "\n", "_", "9", "\x00"}, name)
	two := []string{}
	for i := 0; i < 256; i++ {
		two = append(two, string([]byte{byte(i)}))
	}
	over("bytes", "all texts of two bytes followed by 5 endings", two, func() []string {
		res := []string{}
		for _, b := range two {
			for _, e := range []string{"", "1", "\"", "'", "]]"} {
				res = append(res, b+e)
			}
		}
		return res
	}(), all...)
	// numerals
	numSyms := []string{"0", "1", "9", "a", "f", "x", "X", "e", "E", "p", "P", "+", "-", ".", "g", "_"}
	n = c.quickOr(5, 6)
	over("numerals", fmt.Sprintf("all texts of up to %d of %d symbols", n, len(numSyms)), textsExact(numSyms, 2), texts(numSyms, n-2), numeral)
	numFew := []string{"0", "7", "x", "e", "p", "+", ".", "F"}
	n = c.quickOr(7, 8)
	over("numerals-long", fmt.Sprintf("all texts of %d of %d symbols", n, len(numFew)), textsExact(numFew, 3), textsExact(numFew, n-3), numeral)
	// strings
	strSyms := []string{"\"", "'", "\\", "a", "n", "z", "x", "u", "{", "}", "0", "2", "5", "6", "f", "\n", "\r", " ", "[", "]", "=", "ä", "\t", "\xff", "-"}
	n = c.quickOr(4, 5)
	over("strings", fmt.Sprintf("a quote, then all texts of up to %d of %d symbols", n, len(strSyms)), func() []string {
		res := []string{}
		for _, q := range []string{"\"", "'"} {
			for _, x := range strSyms {
				res = append(res, q+x)
			}
		}
		return res
	}(), texts(strSyms, n-1), str)
	ends := []string{"\"", "'", "a\"", "0\"", "9'", "", "\n\"", " \"", "}\"", "\\\"", "\\'\"'"}
	behind := []string{}
	for _, q := range []string{"\"", "'", "\"x", "'ä\\n"} {
		behind = append(behind, q+"\\")
	}
	escSyms := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
	decs := []string{}
	for _, d := range texts(escSyms, 4) {
		for _, e := range ends {
			decs = append(decs, d+e)
		}
	}
	over("decimal-escapes", "all numbers of up to four digits behind a backslash, 11 endings", behind, decs, str)
	single := []string{}
	for _, a := range two {
		for _, e := range ends {
			single = append(single, a+e)
		}
	}
	over("escapes", "every byte behind a backslash, 11 endings", behind, single, str)
	hexes := []string{}
	for _, q := range []string{"\"", "'"} {
		for _, a := range two {
			hexes = append(hexes, q+"\\x"+a)
		}
	}
	hexRest := []string{}
	for _, a := range two {
		for _, e := range []string{"\"", "'", "0\""} {
			hexRest = append(hexRest, a+e)
		}
	}
	over("hex-escapes", "every pair of bytes behind \\x", hexes, append(hexRest, "", "\"", "'"), str)
	uni := []string{}
	for _, z := range []string{"", "0", "00000000", "0000000000000000"} {
		for _, v := range []string{"", "0", "1", "f", "F", "7f", "80", "7FF", "800", "FFFF", "10000", "10FFFF", "110000", "1FFFFF", "200000", "3FFFFFF", "4000000", "7FFFFFFF", "7fffffff", "80000000", "80000001", "FFFFFFFF", "100000000", "100000041", "7FFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFF", "10000000000000000", "10000000000000041", "FFFFFFFFFFFFFFFFFFFFFFFFF", "g", "4g", "-1", "+1", " 1", "1 ", "_1", "0x1", "1.0"} {
			uni = append(uni, z+v)
		}
	}
	uniRest := []string{}
	for _, v := range uni {
		for _, a := range []string{"{", "", "[", "{ ", "{{"} {
			for _, b := range []string{"}", "", "}}", "]", "} "} {
				for _, e := range []string{"\"", "'", ""} {
					uniRest = append(uniRest, "u"+a+v+b+e, "U"+a+v+b+e)
				}
			}
		}
	}
	over("unicode-escapes", fmt.Sprintf("%d values with and without brackets", len(uni)), behind, uniRest, str)
	uniSyms := []string{"{", "}", "0", "8", "f", "G", "\"", "u", "-", "+"}
	n = c.quickOr(5, 6)
	over("unicode-texts", fmt.Sprintf("all texts of up to %d of %d symbols behind \\u", n, len(uniSyms)), []string{"\"\\u", "'\\u", "\"\\u{", "'\\u{", "\"\\u{7FFFFFF", "\"\\u{0FFFFFFF"}, texts(uniSyms, n), str)
	zSyms := []string{" ", "\t", "\r", "\n", "\v", "\f", "a", "\"", "\\", "z", "\u00a0", "\x00"}
	n = c.quickOr(4, 5)
	over("z-escapes", fmt.Sprintf("\\z and backslash before all texts of up to %d of %d symbols", n, len(zSyms)), []string{"\"\\z", "'\\z", "\"\\", "\"a\\z\\z", "\"\\\\z", "\"\\\r"}, texts(zSyms, n), str)
	// long brackets
	longSyms := []string{"[", "]", "=", "a", "\n", "\\"}
	n = c.quickOr(7, 8)
	over("long", fmt.Sprintf("all texts of up to %d of %d symbols behind a bracket, as string and as comment", n, len(longSyms)), func() []string {
		res := []string{}
		for _, q := range []string{"[", "--["} {
			res = append(res, q)
			for _, x := range textsExact(longSyms, 2) {
				res = append(res, q+x)
			}
		}
		return res
	}(), texts(longSyms, n-2), str, comment)
	longBehind := []string{"[[", "[=[", "[==[", "[===[", "--[[", "--[=[", "--[==[", "--[", "--[=", "-- [[", "[==", "--[[x]] --[=[", "[[\n", "[=[\r\n]"}
	longSyms2 := []string{"]", "=", "]=", "[", "x", "]]", "\r", "\"", "--"}
	n = c.quickOr(5, 6)
	over("long-behind", fmt.Sprintf("14 beginnings, then all texts of up to %d of %d symbols", n, len(longSyms2)), longBehind, texts(longSyms2, n), str, comment)
	// comments
	cmtSyms := []string{"-", "[", "]", "=", "a", "\n", "\r", "\"", "ä"}
	n = c.quickOr(6, 7)
	over("comments", fmt.Sprintf("all texts of up to %d of %d symbols behind a dash", n, len(cmtSyms)), func() []string {
		res := []string{"-"}
		for _, x := range textsExact(cmtSyms, 2) {
			res = append(res, "-"+x)
		}
		return res
	}(), texts(cmtSyms, n-2), str, comment)
	sized(c, "sizes", "elements and their parts of 0..300 bytes, levels of 0..300", 0, 300, c.quickOr(1025, 4097), func(w *W, n int) {
		rep := strings.Repeat
		w.Case(func() string { return fmt.Sprintf("size %d", n) }, func() {
			in := newLexInst()
			eq := rep("=", n)
			for _, t := range []string{
				rep("a", n), "_" + rep("0", n) + "-", rep("end", n), rep("9", n), rep("1", n) + "." + rep("2", n) + "e" + rep("3", n), "0x" + rep("f", n) + "." + rep("0", n) + "p-" + rep("1", n), "." + rep("5", n) + "E+" + rep("0", n), rep("0", n) + "x1",
				"\"" + rep("a", n) + "\"x", "'" + rep("\\n", n) + "'", "\"" + rep("\\065", n) + "\"", "'" + rep("\\x41\\u{1F600}", n) + "'", "\"\\z" + rep(" \n", n) + "\"", "\"" + rep("'", n) + "\"", "\"" + rep("\\", n) + "\"", "\"\\u{" + rep("0", n) + "1}\"", "\"" + rep("ä€", n) + "\n",
				"[" + eq + "[x]" + eq + "]", "[" + eq + "[x]" + eq + "=]" + "]" + eq + "]", "[" + eq + "[]]" + eq, "[=" + eq + "[]" + eq + "]]=" + eq + "]]", "[[" + rep("]", n) + "x]]", "[[" + rep("a\n", n) + "]]]", "[" + eq + "[" + rep("]=", n) + "]" + eq + "]", "[" + eq,
				"--" + rep("a", n) + "\nb", "--" + rep("-", n), "--[" + eq + "[x]" + eq + "]y", "--[" + eq + "x\n]", "--[" + eq + "[x]" + eq, "--[=" + eq + "[x]" + eq + "]]=" + eq + "]", "--[[" + rep("\n", n) + "]]", "--[[" + rep("]", n) + "]", "--" + rep(" ", n) + "[[\n]]",
			} {
				w.note = fmt.Sprintf("%q", t)
				in.judge(w, t, 0, all...)
			}
		})
	})
	total := 0
	docs := append(append([]string{}, luaDocs...), "x = \"a\\x41\\065\\u{48}\\z  \n b\" .. 'q\\\n' .. [==[ ]=] ]==] + 0xA.8p-1 + .5e+10 -- c\r--[=[ ]] ]=] y")
	for _, d := range docs {
		total += len(d)
	}
	c.Phase("documents", "every place of 5 documents, followed by every byte", total, func(w *W, u int) {
		d := ""
		for _, x := range docs {
			if u < len(x) {
				d = x
				break
			}
			u -= len(x)
		}
		w.Case(func() string { return fmt.Sprintf("document %q at %d", d, u) }, func() {
			in := newLexInst()
			in.judge(w, d, u, all...)
			for b := 0; b < 256; b++ {
				for p := u - 6; p <= u; p++ {
					if p >= 0 {
						in.judge(w, d[:u]+string([]byte{byte(b)})+d[u+1:], p, all...)
					}
				}
			}
		})
	})
	const part = 0x400
	c.Phase("runes", "every code point (quick: below U+3100 and those that are ASCII in their lower 16 bits) in the place of a letter, digit, character of a string, escape and comment, and behind each kind of element", (utf8.MaxRune+1)/part, func(w *W, u int) {
		w.Case(func() string { return fmt.Sprintf("runes from %U", u*part) }, func() {
			in := newLexInst()
			for r := rune(u * part); r < rune((u+1)*part); r++ {
				if !c.thorough && !plainOrCut(r) {
					continue
				}
				v := string(r)
				for k, list := range [][]string{
					{v, v + "a", "a" + v, "a" + v + "b"},
					{v, "1" + v, v + "1", "1." + v, "0x" + v, "1e" + v, "0" + v + "1", "1e+" + v},
					{"'" + v + "'", "\"" + v, "'\\" + v + "'", "'\\x" + v + "1'", "'\\u{" + v + "}'", "'\\z" + v + "'", "[[" + v + "]]", "[" + v + "[]]", "[=[" + v + "]=]", v + "a'", "'\\1" + v + "'"},
					{"--" + v, "--" + v + "\na", "--[[" + v + "]]" + v, "--[" + v + "[ ]]\n", "-" + v + "-", v, "--a\n" + v},
				} {
					for _, t := range list {
						if w.failed {
							return
						}
						if strings.Contains(t, "\\\n\r") {
							continue
						}
						w.note = fmt.Sprintf("%q", t)
						in.judge(w, t, 0, k)
					}
				}
			}
		})
	})
}
