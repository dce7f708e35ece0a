package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aiq/tok"
)

func init() {
	register("C33", "the valid chunks among all token sequences and viable prefixes of C25, all operators, spacings, names and changed documents, with all rules picked; documents with every single rule and every pair of rules picked; compared with the occurrences found by a recursive-descent parser written after the manual", checkC33,
		"empty occurrences are not judged (see the known finding of C14)", "spaces and comments at the borders of a segment are not judged, its tokens are", "exp, finalexp, prefixexp and var are only checked to contain every expression, operand and assigned variable (the grammar is right-recursive), varsuffix only to fit in")
}

// luaSubset: only some of the occurrences are demanded.
var luaSubset = map[string]bool{"exp": true, "finalexp": true, "prefixexp": true, "var": true}

func (n luaNode) String() string { return fmt.Sprintf("%s[%d..%d]", n.rule, n.first, n.last) }

func luaNodeText(t string, toks []luaTok, n luaNode) string {
	return fmt.Sprintf("%s %q", n.rule, t[toks[n.first].from:toks[n.last].to])
}

// readLuaPicks reads a valid chunk, with all rules (or those of the set) picked.
func readLuaPicks(w *W, l *luaSubject, t string, pick map[string]bool) {
	toks, _, risky := luaLex(t)
	if risky {
		w.Out("not judged")
		return
	}
	s := tok.NewScanner(t)
	b := s.NewBasket()
	for i, r := range l.rules {
		r.Reader = l.orig[i]
		if pick == nil || pick[r.Name] {
			r.Pick(b)
		}
	}
	w.trans++
	if s.Use(l.g) != nil || !s.AtEnd() {
		w.Out("not read (see C25)")
		return
	}
	got := b.Picked()
	w.Out("picks compared")
	count := map[luaNode]int{}
	comments := [][2]int{}
	// the tokens of the segments
	type span struct{ from, to int }
	spans := []span{}
	for _, g := range got {
		f, e := ends(g.Token)
		if f < 0 || e > len(t) || f > e {
			w.Fail("chunk %q: segment %v outside of the text", t, g)
			return
		}
		if g.Info == "Comment" {
			comments = append(comments, [2]int{f, e})
			spans = append(spans, span{f, e})
			continue
		}
		a := sort.Search(len(toks), func(i int) bool { return toks[i].to > f })
		z := sort.Search(len(toks), func(i int) bool { return toks[i].from >= e }) - 1
		if a > z {
			continue // empty
		}
		if toks[a].from < f || toks[z].to > e {
			w.Fail("chunk %q: segment %v (%q) cuts a token", t, g, t[f:e])
			return
		}
		spans = append(spans, span{f, e})
		count[luaNode{g.Info, a, z}]++
	}
	want := map[luaNode]int{}
	for _, n := range luaNodes(toks) {
		if pick == nil || pick[n.rule] {
			want[n]++
		}
	}
	for n, k := range want {
		if c := count[n]; c != k && (c < k || !luaSubset[n.rule]) {
			w.Fail("chunk %q: %s picked %d times, but occurs %d times; picked %v", t, luaNodeText(t, toks, n), c, k, got)
			return
		}
	}
	for n, k := range count {
		if c := want[n]; c == 0 && !luaSubset[n.rule] && n.rule != "varsuffix" {
			w.Fail("chunk %q: %s picked %d times, but does not occur; picked %v", t, luaNodeText(t, toks, n), k, got)
			return
		}
	}
	if pick == nil || pick["Comment"] {
		if a, b := fmt.Sprint(comments), fmt.Sprint(luaComments(t, toks)); a != b {
			w.Fail("chunk %q: picked comments %s, but there are %s; picked %v", t, a, b, got)
			return
		}
	}
	// in order of completion and nested
	for j := range spans {
		for i := j - 1; i >= 0 && i > j-200; i-- {
			x, y := spans[i], spans[j]
			if y.to < x.to || y.from > x.from && y.from < x.to {
				w.Fail("chunk %q: segment %v picked after %v; picked %v", t, y, x, got)
				return
			}
		}
	}
	if len(got) <= 400 {
		nodes := 0
		var walk func(n *tok.Node)
		walk = func(n *tok.Node) {
			nodes++
			for _, k := range n.Nodes {
				walk(k)
			}
		}
		if g := tok.BuildGraph("r", got); g.Root != nil {
			walk(g.Root)
		}
		if nodes != len(got)+1 {
			w.Fail("chunk %q: the graph has %d nodes for %d segments and the root; picked %v", t, nodes, len(got), got)
		}
	}
}

func checkC33(c *Ctx) {
	grammarPlaces(c, 2, true)
	docs := append(append([]string{}, luaDocs...), luaSentences...)
	names := []string{}
	for _, r := range newLua(c).rules {
		names = append(names, r.Name)
	}
	overList(c, "rules", fmt.Sprintf("%d documents with all rules, each single rule and each pair of %d rules picked, tokens separated by spaces, line breaks and comments", len(docs), len(names)), docs, 1, func(w *W, d string) {
		w.Case(func() string { return fmt.Sprintf("document %q", d) }, func() {
			l := newLua(c)
			if luaJudge(d) != 1 {
				w.Out("not judged")
				return
			}
			seq := luaWords(d)
			texts := []string{d, strings.Join(seq, "\n"), strings.Join(seq, " --c\n"), strings.Join(seq, " --[[c]] ") + " --end"}
			for i, t := range texts {
				if luaJudge(t) != 1 {
					continue
				}
				readLuaPicks(w, l, t, nil)
				for a := range names {
					for b := a; b < len(names); b++ {
						if w.failed {
							return
						}
						if b > a && i > 0 && !c.thorough {
							break
						}
						readLuaPicks(w, l, t, map[string]bool{names[a]: true, names[b]: true})
					}
				}
			}
		})
	})
	luaTopicPhases(c)
	luaOperators(c)
	luaSpacings(c)
	luaNames(c)
	luaDocuments(c)
	luaDialects(c)
	luaSpans(c)
	luaSizes(c)
}
