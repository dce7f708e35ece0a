package main

import (
	"fmt"
	"github.com/aiq/tok"
	"sort"
	"strings"
	"unicode/utf8"
)

// texts lists all texts of up to max symbols, shortest first.
func texts(symbols []string, max int) []string {
	res := []string{""}
	level := []string{""}
	for l := 1; l <= max; l++ {
		next := make([]string, 0, len(level)*len(symbols))
		for _, t := range level {
			for _, s := range symbols {
				next = append(next, t+s)
			}
		}
		res = append(res, next...)
		level = next
	}
	return res
}

// textsExact lists all texts of exactly n symbols.
func textsExact(symbols []string, n int) []string {
	level := []string{""}
	for l := 1; l <= n; l++ {
		next := make([]string, 0, len(level)*len(symbols))
		for _, t := range level {
			for _, s := range symbols {
				next = append(next, t+s)
			}
		}
		level = next
	}
	return level
}

func uniq(list []string) []string {
	seen := map[string]bool{}
	res := []string{}
	for _, s := range list {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res
}

// chunks runs f over list in units of n elements.
func overList(c *Ctx, phase, bound string, list []string, n int, f func(w *W, s string)) {
	units := (len(list) + n - 1) / n
	c.Phase(phase, bound, units, func(w *W, u int) {
		end := (u + 1) * n
		if end > len(list) {
			end = len(list)
		}
		for _, s := range list[u*n : end] {
			f(w, s)
		}
	})
}

func runes(s string) []string {
	res := []string{}
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		res = append(res, s[:n])
		s = s[n:]
	}
	return res
}

// plainOrCut: the runes that the quick checks use where each one is expensive: those
// below U+3100, those that are ASCII in their lower bits, and the ends of the planes.
func plainOrCut(r rune) bool {
	return r < 0x3100 || r&0xFFFF < 0x80 || r >= 0xFF00 && r <= 0xFFFF || r&0xFFFF > 0xFFFC
}

func b2s(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func qs(list []string) string {
	q := []string{}
	for _, s := range list {
		q = append(q, fmt.Sprintf("%q", s))
	}
	return strings.Join(q, ",")
}

// clearBasket makes a basket new, the readers that pick into it keep it.
func clearBasket(b *tok.Basket) {
	*b = *tok.NewScanner("").NewBasket()
}

// bigNumbers are sizes around powers of two and ten.
var bigNumbers = []int{255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}

// sized is a phase with one unit for each size: all from lo to hi and the big
// numbers above hi up to limit.
func sized(c *Ctx, name, bound string, lo, hi, limit int, f func(w *W, n int)) {
	sizes := []int{}
	for _, n := range bigNumbers {
		if n > hi && n <= limit {
			sizes = append(sizes, n)
		}
	}
	if len(sizes) > 0 {
		bound += fmt.Sprintf("; also sizes around powers of 2 and 10 up to %d", sizes[len(sizes)-1])
	}
	for n := hi; n >= lo; n-- {
		sizes = append(sizes, n)
	}
	// the large ones first
	sort.Sort(sort.Reverse(sort.IntSlice(sizes)))
	c.Phase(name, bound, len(sizes), func(w *W, u int) { f(w, sizes[u]) })
}
