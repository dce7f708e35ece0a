package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"runtime"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// wideCounts: counts that are small in their lower 8, 16, 31 or 32 bits.
func wideCounts() []int {
	res := []int{}
	for _, b := range []int{1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 62} {
		for k := -2; k <= 4; k++ {
			res = append(res, b+k)
		}
	}
	for k := 0; k <= 4; k++ {
		res = append(res, 1<<63-1-k)
	}
	return res
}

// runCounts: calls with counts far beyond the text.
func runCounts(c *Ctx) {
	counts := wideCounts()
	list := texts([]string{"a", "ä", "\xff"}, 3)
	run := c.phaseN
	if c.id == "C09" { // Times may prepare a list
		run = c.Soft
	}
	run("counts", fmt.Sprintf("%d counts and markers that are small in their lower bits, texts of up to 3 symbols, every position, both directions", len(counts)), len(counts), runtime.NumCPU(), func(w *W, u int) {
		n := counts[u]
		w.Case(func() string { return fmt.Sprintf("count %d", n) }, func() {
			for _, t := range list {
				for p := 0; p <= len(t); p++ {
					check := func(name string, f func(s *tok.Scanner) bool) {
						s := at(w, t, p)
						w.trans++
						if f(s) || int(s.Mark()) != p {
							w.Fail("%s with %d at %d of %q is possible, the position is %d", name, n, p, t, s.Mark())
						}
					}
					switch c.id {
					case "C01":
						for _, n := range []int{n, -n, -n - 1} {
							check("Move", func(s *tok.Scanner) bool { return s.Move(n) })
							check("MoveRunes", func(s *tok.Scanner) bool { return s.MoveRunes(n) })
							check("ToMarker", func(s *tok.Scanner) bool { return s.ToMarker(tok.Marker(n)) })
						}
					case "C07":
						check("ScanString", func(s *tok.Scanner) bool { _, ok := s.ScanString(n); return ok })
					case "C09":
						check("Times", func(s *tok.Scanner) bool { return tok.Times(n, tok.Any('a', 'ä', '\uFFFD')).Read(s) == nil })
					}
				}
			}
		})
	})
}

var hugeSizes = []int{32767, 32769, 65535, 65536, 65537, 99999, 100001, 131073, 1<<20 - 1, 1 << 20, 1<<20 + 1}

// hugeLines: LineCol behind many lines, columns and tabs.
func hugeLines(c *Ctx, model func(t string, p, tab int) (int, int)) {
	c.Soft("huge", "32767..1048577 lines, columns and tabs, tab widths up to 65537", len(hugeSizes), runtime.NumCPU(), func(w *W, u int) {
		n := hugeSizes[u]
		for _, unit := range []string{"\n", "a", "\t", "\r\n", "ab\n"} {
			t := strings.Repeat(unit, n) + "x"
			w.Case(func() string { return fmt.Sprintf("%d times %q", n, unit) }, func() {
				for _, p := range []int{len(t), len(t) - 1, len(t) / 2} {
					for _, tab := range []int{1, 8, 255, 256, 257, 65535, 65536, 65537} {
						s := at(w, t, p)
						l, k := s.LineCol(tab)
						w.trans++
						if wl, wk := model(t, p, tab); l != wl || k != wk {
							w.Fail("LineCol(%d) at %d is %d:%d, expected %d:%d", tab, p, l, k, wl, wk)
						}
					}
				}
			})
		}
	})
}

// hugeJSON: long and deeply nested texts; the results are known.
func hugeJSON(c *Ctx) {
	rep := strings.Repeat
	sizes := append([]int{9999, 10000, 10001, 16385, 20000}, hugeSizes...)
	c.Soft("huge", "strings, numbers, spaces, arrays and objects of 9999..1048577 parts, nesting of 9999..65537 (thorough: 100001) arrays and objects; complete, cut and broken", len(sizes), 4, func(w *W, u int) {
		n := sizes[u]
		type item struct {
			name, text string
			end        int // -1: not valid
		}
		list := []item{
			{"string", `"` + rep("a", n) + `"`, n + 2}, {"open string", `"` + rep("a", n), -1}, {"digits", rep("1", n) + ".", n}, {"fraction", "-0." + rep("1", n) + "e5", n + 5}, {"spaces", rep(" ", n) + "1" + rep("\n", n), 2*n + 1},
			{"escapes", `"` + rep(`\u00e9`, n/8) + `"`, n/8*6 + 2}, {"array", "[1" + rep(",1", n/4) + "]", n/4*2 + 3}, {"open array", "[1" + rep(",1", n/4) + ",]", -1}, {"object", `{"a":1` + rep(`,"a":1`, n/16) + "}", n/16*6 + 7}, {"broken object", `{"a":1` + rep(`,"a":1`, n/16) + `,"a"}`, -1},
		}
		if n <= c.quickOr(65537, 100001) {
			list = append(list, item{"arrays", rep("[", n) + rep("]", n), 2 * n}, item{"open arrays", rep("[", n) + rep("]", n-1), -1}, item{"objects", rep(`{"a":`, n/2) + "1" + rep("}", n/2), n/2*6 + 1}, item{"broken objects", rep(`{"a":`, n/2) + rep("}", n/2), -1}, item{"mixed", rep(`[{"a":`, n/4) + "null" + rep("}]", n/4), n/4*8 + 4})
		}
		for _, x := range list {
			w.Case(func() string { return fmt.Sprintf("%s of size %d", x.name, n) }, func() {
				g := grammar.JSON()
				s := tok.NewScanner(x.text)
				s.Tracker = tickTracker{w}
				err := s.Use(g)
				want := x.end
				if want < 0 {
					want = 0
				}
				if (err == nil) != (x.end >= 0) || int(s.Mark()) != want {
					w.Fail("consumed %d of %d (error %.200v), expected %d", s.Mark(), len(x.text), err, x.end)
				}
			})
		}
	})
}

// hugeMXT: many and long chunks; names and contents are known.
func hugeMXT(c *Ctx) {
	rep := strings.Repeat
	c.Soft("huge", "texts of 32767..1048577 chunks, contents, names and salts of this size", len(hugeSizes), 4, func(w *W, u int) {
		n := hugeSizes[u]
		type chunk struct{ name, content string }
		judge := func(what, t string, want []chunk) {
			w.Case(func() string { return fmt.Sprintf("%s of size %d", what, n) }, func() {
				g := grammar.MXT()
				s := tok.NewScanner(t)
				s.Tracker = tickTracker{w}
				names, contents := []string{}, []string{}
				g.Name.Map(func(x tok.Token) { names = append(names, s.Get(x)) })
				g.Content.Map(func(x tok.Token) { contents = append(contents, s.Get(x)) })
				err := s.Use(g)
				if err != nil || !s.AtEnd() || len(names) != len(want) || len(contents) != len(want) {
					w.Fail("%d names and %d contents, expected %d; error %.200v at %d of %d", len(names), len(contents), len(want), err, s.Mark(), len(t))
					return
				}
				for i, x := range want {
					if names[i] != x.name || contents[i] != x.content {
						w.Fail("chunk %d is %.100q with %.100q, expected %.100q with %.100q", i, names[i], contents[i], x.name, x.content)
						return
					}
				}
			})
		}
		many := []chunk{{"a", "x"}}
		for i := 0; i < n/8; i++ {
			many = append(many, chunk{"b", "y"})
		}
		judge("many chunks", "// a -->\nx"+rep("\n// b -->\ny", n/8), many)
		judge("content", "// a -->\n"+rep("x", n)+"\n// b -->\ny", []chunk{{"a", rep("x", n)}, {"b", "y"}})
		judge("content with lines", "// a --> S\n"+rep("x\n", n/4)+"// b -->\n//S b -->\ny", []chunk{{"a", rep("x\n", n/4) + "// b -->"}, {"b", "y"}})
		judge("name", "// "+rep("n", n)+" -->\nx", []chunk{{rep("n", n), "x"}})
		judge("salt", "// a --> "+rep("S", n)+"\n//"+rep("S", n-1)+"\n//"+rep("S", n)+" b -->\ny", []chunk{{"a", "//" + rep("S", n-1)}, {"b", "y"}})
	})
}

// hugeLua: long lexical elements and chunks; the results are known.
func hugeLua(c *Ctx) {
	rep := strings.Repeat
	if c.id == "C24" {
		c.Soft("huge", "names, numerals, strings, comments and levels of 32767..1048577 bytes", len(hugeSizes), 4, func(w *W, u int) {
			n := hugeSizes[u]
			w.Case(func() string { return fmt.Sprintf("elements of size %d", n) }, func() {
				g := grammar.Lua()
				for _, x := range []struct {
					name, text string
					r          tok.Reader
					end        int // -1: not read
				}{
					{"name", rep("a", n) + " ", &g.Name, n},
					{"numeral", rep("1", n) + "." + rep("2", n) + "e+" + rep("3", n) + " ", &g.Numeral, 3*n + 3},
					{"hex", "0x" + rep("f", n) + "p1 ", &g.Numeral, n + 4},
					{"string", `"` + rep("a", n) + `"x`, &g.LiteralString, n + 2},
					{"escapes", `'` + rep(`\n`, n) + `'x`, &g.LiteralString, 2*n + 2},
					{"open string", `"` + rep("a", n), &g.LiteralString, -1},
					{"long string", "[[" + rep("a\n", n/2) + "]]]", &g.LiteralString, n/2*2 + 4},
					{"level", "[" + rep("=", n) + "[x]" + rep("=", n-1) + "]]" + rep("=", n) + "]]", &g.LiteralString, 1 + n + 1 + 1 + 1 + n - 1 + 1 + 1 + n + 1},
					{"other level", "[" + rep("=", n) + "[x]" + rep("=", n-1) + "]", &g.LiteralString, -1},
					{"comment", "--" + rep("c", n) + "\nx", &g.Comment, n + 2},
					{"long comment", "--[[" + rep("c\n", n/2) + "]]x", &g.Comment, n/2*2 + 6},
				} {
					s := tok.NewScanner(x.text)
					s.Tracker = tickTracker{w}
					err := s.Use(x.r)
					want := x.end
					if want < 0 {
						want = 0
					}
					end := int(s.Mark())
					if x.name == "comment" && end == n+3 {
						end-- // with or without the line break
					}
					if (err == nil) != (x.end >= 0) || end != want {
						w.Fail("%s: consumed %d (error %.200v), expected %d", x.name, s.Mark(), err, x.end)
					}
				}
			})
		})
		return
	}
	sizes := []int{1023, 1025, 2047, 2049, 4095, 4097, c.quickOr(5000, 20000)}
	c.Soft("huge", fmt.Sprintf("chunks of 1023..%d statements, lists and nested blocks, complete and broken", sizes[len(sizes)-1]), len(sizes), 4, func(w *W, u int) {
		n := sizes[u]
		for _, x := range []struct {
			name, text string
			ok         bool
		}{
			{"assignments", rep("x=1 ", n), true}, {"calls", rep("f()", n), true}, {"locals", rep("local a\n", n), true}, {"comments", rep("--c\n", n) + "x=1", true}, {"list", "x=1" + rep(",1", n), true}, {"table", "x={" + rep("1,", n) + "}", true}, {"broken table", "x={" + rep("1,", n) + ",}", false},
			{"do", rep("do ", n/4) + rep("end ", n/4), true}, {"broken do", rep("do ", n/4) + rep("end ", n/4-1), false}, {"if", "if x then " + rep("elseif x then ", n) + "else end", true}, {"sum", "x=1" + rep("+1", n/4), true}, {"name", rep("n", n) + "=1", true}, {"string", "x='" + rep("s", n) + "'", true}, {"params", "function f(a" + rep(",a", n) + ") end", true}, {"broken params", "function f(a" + rep(",a", n) + ",) end", false}, {"broken assignments", rep("x=1 ", n) + "x", false},
		} {
			w.Case(func() string { return fmt.Sprintf("%s of size %d", x.name, n) }, func() {
				s := tok.NewScanner(x.text)
				s.Tracker = tickTracker{w}
				err := s.Use(grammar.Lua())
				if ok := err == nil && s.AtEnd(); ok != x.ok {
					w.Fail("read to the end: %v (error %.200v, at %d of %d), expected %v", ok, err, s.Mark(), len(x.text), x.ok)
				}
			})
		}
	})
}

// deepTexts: nesting that needs a deep recursion, each read in a new process
// because a stack overflow ends it.
var deepTexts = []struct {
	name              string
	open, mid, closed string
}{
	{"json arrays", "[", "", "]"}, {"json objects", `{"a":`, "1", "}"}, {"lua blocks", "do ", "", "end "}, {"lua unary operators", "x=", "1", ""},
}

// deepKnown: the recorded finding is the overflow with this number of levels.
const deepKnown = 2 << 20

func deepRead(i, n int) {
	d := deepTexts[i]
	rep := strings.Repeat
	t := rep(d.open, n) + d.mid + rep(d.closed, n)
	var g tok.Grammar = grammar.JSON()
	if strings.HasPrefix(d.name, "lua") {
		g = grammar.Lua()
		if d.closed == "" {
			t = d.open + rep("- ", n) + d.mid
		}
	}
	s := tok.NewScanner(t)
	err := s.Use(g)
	fmt.Printf("%v %v", err == nil, s.AtEnd())
}

func deepNesting(c *Ctx) {
	sizes := []int{10001, 32769, c.quickOr(65537, 100001), deepKnown}
	c.phaseN("deep", fmt.Sprintf("%d kinds of nesting of 10001..%d levels and of %d levels (json), each in a new process", len(deepTexts), sizes[2], deepKnown), len(sizes)*len(deepTexts), 2, func(w *W, u int) {
		n, i := sizes[u%len(sizes)], u/len(sizes)
		if n == deepKnown && i > 1 {
			return // takes too long
		}
		w.Case(func() string { return fmt.Sprintf("%d levels of %s", n, deepTexts[i].name) }, func() {
			w.trans++
			cmd := exec.Command("/proc/self/exe", "deep", fmt.Sprint(i), fmt.Sprint(n))
			var errb bytes.Buffer
			cmd.Stderr = &errb
			b, err := cmd.Output()
			if err == nil && string(b) == "true true" {
				return
			}
			if err != nil && n == deepKnown && strings.Contains(errb.String(), "stack exceeds") {
				w.Known("deep-nesting", "%d levels of %s end the process with a stack overflow", n, deepTexts[i].name)
				return
			}
			w.Fail("the process ends with %v, prints %q: %.300s", err, b, errb.String())
		})
	})
}
