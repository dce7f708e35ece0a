package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

func init() {
	register("C06", "every text of the stated families at the stated offsets with every base and bit size; value, error and position compared with an arbitrary-precision model", checkC06)
	register("C07", "every spelling, truncation and extension of bool values with every format, every code point and byte sequence for ReadRune, every text and count for ScanString", checkC07)
	register("C08", "every program of scoped calls up to the bound (bodies of moves and nested scoped calls that succeed or fail) on every text and position; position, returned string/token and error compared with the model", checkC08)
	register("C30", "every text up to the bound at every byte position with every tab width compared with a direct count", checkC30)
}

// ---------------------------------------------------------------------- C06

type intModel struct {
	ok  bool
	val *big.Int
	pos int
}

func digitVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return 99
}

// readIntModel: the longest prefix of digits whose value fits.
func readIntModel(t string, p, base, bits int, signed bool) intModel {
	if base != 8 && base != 10 && base != 16 || bits != 8 && bits != 16 && bits != 32 && bits != 64 {
		return intModel{pos: p}
	}
	max := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	min := big.NewInt(0)
	if signed {
		max.Rsh(max, 1)
		min.Neg(max)
	}
	max.Sub(max, big.NewInt(1))
	i := p
	neg := false
	if signed && i < len(t) && (t[i] == '-' || t[i] == '+') {
		neg = t[i] == '-'
		i++
	}
	start := i
	// fast path in int64 while the value is small
	var small int64
	for i < len(t) && small < 1<<54 && bits == 64 {
		d := digitVal(t[i])
		if d >= base {
			break
		}
		small = small*int64(base) + int64(d)
		i++
	}
	val := big.NewInt(small)
	bb := big.NewInt(int64(base))
	tmp := new(big.Int)
	for i < len(t) {
		d := digitVal(t[i])
		if d >= base {
			break
		}
		next := new(big.Int).Mul(val, bb)
		next.Add(next, big.NewInt(int64(d)))
		tmp.Set(next)
		if neg {
			tmp.Neg(tmp)
		}
		if tmp.Cmp(max) > 0 || tmp.Cmp(min) < 0 {
			break
		}
		val = next
		i++
	}
	if i == start {
		return intModel{pos: p}
	}
	if neg {
		val.Neg(val)
	}
	return intModel{true, val, i}
}

var intBases = []int{8, 10, 16}
var intBits = []int{8, 16, 32, 64}

// ints compares all four ways to read a number.
func ints(w *W, t string, p int, bases, bits []int) {
	for _, base := range bases {
		for _, bs := range bits {
			for kind := 0; kind < 4; kind++ {
				signed := kind%2 == 0
				want := readIntModel(t, p, base, bs, signed)
				s := at(w, t, p)
				w.trans++
				var err error
				var iv int64
				var uv uint64
				name := ""
				switch kind {
				case 0:
					name = "ReadInt"
					w.note = name
					iv, err = s.ReadInt(base, bs)
				case 1:
					name = "ReadUint"
					w.note = name
					uv, err = s.ReadUint(base, bs)
				case 2:
					name = "Int"
					w.note = name
					r := tok.Int(base, bs)
					err = r.Read(s)
					iv = r.Value
				case 3:
					name = "Uint"
					w.note = name
					r := tok.Uint(base, bs)
					err = r.Read(s)
					uv = r.Value
				}
				if (err == nil) != want.ok {
					w.Fail("%s(%d,%d) at %d of %q: error %v, expected ok=%v", name, base, bs, p, t, err, want.ok)
					continue
				}
				if int(s.Mark()) != want.pos {
					w.Fail("%s(%d,%d) at %d of %q: moved to %d, expected %d", name, base, bs, p, t, s.Mark(), want.pos)
				}
				if !want.ok {
					continue
				}
				if signed {
					if !want.val.IsInt64() || want.val.Int64() != iv {
						w.Fail("%s(%d,%d) at %d of %q: value %d, expected %s", name, base, bs, p, t, iv, want.val)
					}
				} else if !want.val.IsUint64() || want.val.Uint64() != uv {
					w.Fail("%s(%d,%d) at %d of %q: value %d, expected %s", name, base, bs, p, t, uv, want.val)
				}
			}
		}
	}
}

func checkC06(c *Ctx) {
	longTexts(c, longCalls("C06"))
	syms := []string{"0", "1", "2", "7", "8", "9", "a", "F", "g", "-", "+", "ä"}
	overList(c, "short-texts", fmt.Sprintf("all texts of up to %d of 12 symbols at position 0", c.quickOr(5, 6)), texts(syms, c.quickOr(5, 6)), 256, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() { ints(w, t, 0, intBases, intBits) })
	})
	overList(c, "positions", "all texts of up to 4 of 12 symbols at every other position", texts(syms, 4), 256, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for p := 1; p <= len(t); p++ {
				ints(w, t, p, intBases, intBits)
			}
		})
	})
	// every value around the 8 and 16 bit ranges in every base
	c.Phase("values-16", "all values from -70000 to 70000, 8, 10 and 16 as base, with and without following text", 1401, func(w *W, u int) {
		for v := u*100 - 70000; v < u*100-69900; v++ {
			for _, base := range intBases {
				t := big.NewInt(int64(v)).Text(base)
				if v%2 != 0 {
					t = strings.ToUpper(t)
				}
				w.Case(func() string { return fmt.Sprintf("%d in base %d: %q", v, base, t) }, func() {
					ints(w, t, 0, []int{base}, intBits)
					ints(w, "+"+t+"xyz", 0, []int{base}, []int{8, 16})
					ints(w, "é"+t+"-1", 2, []int{base}, []int{8, 16})
				})
			}
		}
	})
	// every power of two and of the base, and everything near to it
	c.Phase("boundaries", "2^k+d and base^k+d for k up to 70, d from -40 to 40, with leading zeros and further digits", 71, func(w *W, k int) {
		for _, base := range intBases {
			for _, b := range []*big.Int{new(big.Int).Lsh(big.NewInt(1), uint(k)), new(big.Int).Exp(big.NewInt(int64(base)), big.NewInt(int64(k%25)), nil)} {
				for d := int64(-40); d <= 40; d++ {
					v := new(big.Int).Add(b, big.NewInt(d))
					if v.Sign() < 0 {
						continue
					}
					str := v.Text(base)
					w.Case(func() string { return fmt.Sprintf("%s in base %d", str, base) }, func() {
						for _, sign := range []string{"", "-", "+"} {
							for _, tail := range []string{"", "0", "1", "7", "9", "f", "00", "99", "x", ".5"} {
								ints(w, sign+str+tail, 0, intBases, []int{32, 64})
							}
							for _, z := range []int{1, 2, 30, 100} {
								ints(w, sign+strings.Repeat("0", z)+str, 0, []int{base}, intBits)
							}
						}
					})
				}
			}
		}
	})
	sized(c, "leading-zeros", "0..130 leading zeros before each boundary of the types", 0, 130, 4097, func(w *W, n int) {
		for _, base := range intBases {
			w.Case(func() string { return fmt.Sprintf("%d leading zeros, base %d", n, base) }, func() {
				for _, bits := range []uint{0, 3, 7, 8, 15, 16, 31, 32, 63, 64} {
					for d := int64(-2); d <= 2; d++ {
						v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(d))
						if v.Sign() < 0 {
							continue
						}
						t := strings.Repeat("0", n) + v.Text(base)
						ints(w, t, 0, []int{base}, intBits)
						ints(w, "-"+t, 0, []int{base}, intBits)
						ints(w, "x"+t+"x", 1, []int{base}, intBits)
					}
				}
			})
		}
	})
	sized(c, "digits", "1..130 digits, far above the range of every type", 1, 130, 4097, func(w *W, n int) {
		for _, base := range intBases {
			w.Case(func() string { return fmt.Sprintf("%d digits, base %d", n, base) }, func() {
				for _, d := range "0123456789abcdefF"[:base+base/16] {
					for _, pre := range []string{"", "-", "+", "0", "-0", "1", "-1", " "} {
						ints(w, pre+strings.Repeat(string(d), n), 0, []int{base}, intBits)
						ints(w, pre+strings.Repeat(string(d), n)+"g", 0, []int{base}, intBits)
					}
				}
			})
		}
	})
	// leading digits decide about the wrap of an overflow
	fill := []string{"0", "7", "9", "f", "5"}
	c.Phase("families", "all first two (thorough: three) digits, then a run of one digit, all lengths up to 25", 26, func(w *W, n int) {
		for _, base := range intBases {
			digits := "0123456789abcdef"[:base]
			heads := textsExact(strings.Split(digits, ""), c.quickOr(3, 3))
			for _, f := range fill {
				if digitVal(f[0]) >= base {
					continue
				}
				for _, h := range heads {
					t := h + strings.Repeat(f, n)
					w.Case(func() string { return fmt.Sprintf("text %q base %d", t, base) }, func() {
						ints(w, t, 0, []int{base}, []int{32, 64})
						ints(w, "-"+t, 0, []int{base}, []int{32, 64})
						for _, l := range digits {
							ints(w, t+string(l), 0, []int{base}, []int{64})
						}
					})
				}
			}
		}
	})
	// only the digits are digits
	allRunes(c, "all-code-points", func(w *W, r rune) {
		t := string(r)
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			ints(w, t, 0, intBases, []int{8})
			ints(w, "1"+t+"1", 0, intBases, []int{64})
			ints(w, "-"+t+"1", 0, []int{16}, []int{32})
		})
	})
	c.Phase("parameters", "all bases from -2 to 40 and bit sizes from -2 to 130 on 12 texts", 43, func(w *W, u int) {
		base := u - 2
		for bits := -2; bits <= 130; bits++ {
			w.Case(func() string { return fmt.Sprintf("base %d bit size %d", base, bits) }, func() {
				for _, t := range []string{"", "1", "12", "-7", "+7", "x1", "101", "255", "ff", "-", "0", "0x1f"} {
					ints(w, t, 0, []int{base}, []int{bits})
				}
				ints(w, "ä12", 2, []int{base}, []int{bits})
			})
		}
	})
}

// ---------------------------------------------------------------------- C07

func boolModel(t string, p int, format string) (val, ok bool, pos int) {
	var ts, fs []string
	switch format {
	case "l":
		ts, fs = []string{"true"}, []string{"false"}
	case "U":
		ts, fs = []string{"TRUE"}, []string{"FALSE"}
	case "Cc":
		ts, fs = []string{"True"}, []string{"False"}
	case "*", "":
		ts, fs = []string{"true", "TRUE", "True"}, []string{"false", "FALSE", "False"}
	}
	for _, x := range ts {
		if has(t, p, x) {
			return true, true, p + len(x)
		}
	}
	for _, x := range fs {
		if has(t, p, x) {
			return false, true, p + len(x)
		}
	}
	return false, false, p
}

var boolFormats = []string{"", "*", "l", "U", "Cc", "L", "u", "cC", "C", "c", "CC", "cc", "**", "l ", " l", "lU", "UCc", "true", "ä", "\x00"}

func bools(w *W, t string, p int) {
	for _, f := range boolFormats {
		val, ok, pos := boolModel(t, p, f)
		for kind := 0; kind < 2; kind++ {
			s := at(w, t, p)
			w.note = fmt.Sprintf("bool format %q kind %d", f, kind)
			w.trans++
			var got bool
			var err error
			if kind == 0 {
				got, err = s.ReadBool(f)
			} else {
				r := tok.Bool(f)
				r.Value = !val
				err = r.Read(s)
				got = r.Value
			}
			if (err == nil) != ok || int(s.Mark()) != pos || ok && got != val {
				w.Fail("value %v, error %v, moved to %d; expected %v, ok=%v, %d", got, err, s.Mark(), val, ok, pos)
			}
		}
	}
}

func caseVariants(s string) []string {
	res := []string{""}
	for _, r := range s {
		next := []string{}
		for _, p := range res {
			next = append(next, p+strings.ToLower(string(r)), p+strings.ToUpper(string(r)))
		}
		res = next
	}
	return res
}

func readRune(w *W, t string, p int) {
	s := at(w, t, p)
	w.note = "ReadRune"
	w.trans++
	r, n := utf8.DecodeRuneInString(t[p:])
	ok := !(r == utf8.RuneError && n <= 1)
	got, err := s.ReadRune()
	want := p
	if ok {
		want = p + n
	}
	if (err == nil) != ok || int(s.Mark()) != want || ok && got != r {
		w.Fail("text %q at %d: read %U, error %v, moved to %d; expected %U, ok=%v, %d", t, p, got, err, s.Mark(), r, ok, want)
	}
}

func scanString(w *W, t string, p, n int) {
	s := at(w, t, p)
	w.trans++
	w.note = fmt.Sprintf("ScanString(%d)", n)
	got, ok := s.ScanString(n)
	if n < 0 {
		if ok || int(s.Mark()) != p {
			w.Fail("at %d: read %q, %v, moved to %d", p, got, ok, s.Mark())
		}
		return
	}
	want := opMoveRunes(n).model(t, p)
	if ok != want.ok || int(s.Mark()) != want.pos || ok && got != t[p:want.pos] {
		w.Fail("at %d: read %q, %v, moved to %d; expected %v and %d", p, got, ok, s.Mark(), want.ok, want.pos)
	}
}

func checkC07(c *Ctx) {
	longTexts(c, longCalls("C07"))
	runCounts(c)
	list := []string{}
	for _, word := range append(caseVariants("true"), caseVariants("false")...) {
		for k := 0; k <= len(word); k++ {
			list = append(list, word[:k])
			for _, x := range []string{"t", "T", "e", "ä", " ", "x", "1", "\xff", "ſ", "e true"} {
				list = append(list, word[:k]+x, word[:k]+x+word[k:], x+word)
				if k < len(word) {
					list = append(list, word[:k]+x+word[k+1:], word[:k]+word[k+1:])
				}
			}
		}
		for _, word2 := range []string{"true", "FALSE", "Tr"} {
			list = append(list, word+word2, word2+word)
		}
	}
	overList(c, "bool", "all case variants, truncations, extensions and one-character changes of true and false, 20 formats, every position", uniq(list), 32, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for p := 0; p <= len(t); p++ {
				bools(w, t, p)
			}
		})
	})
	forms := []string{"t", "r", "u", "e", "f", "T", "F", "true", "false", "TRUE", "False", "True", "FALSE"}
	overList(c, "bool-sequences", "texts of up to 4 of 13 parts", texts(forms, c.quickOr(4, 5)), 64, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() { bools(w, t, 0) })
	})
	allRunes(c, "runes", func(w *W, r rune) {
		t := "x" + string(r) + "y"
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			readRune(w, t, 1)
			readRune(w, string(r), 0)
			for p := 2; p < len(t); p++ {
				readRune(w, t, p) // inside of the encoding
			}
			for p := 2; p < len(t)-1; p++ {
				readRune(w, t[:p], 1) // truncated encoding
			}
			scanString(w, t, 0, 3)
			scanString(w, t, 1, 1)
			scanString(w, t[:len(t)-1], 1, 1)
			scanString(w, t, 0, 4)
		})
	})
	c.Phase("bytes", "all sequences of up to 3 bytes", 256, func(w *W, u int) {
		a := string([]byte{byte(u)})
		w.Case(func() string { return fmt.Sprintf("bytes beginning with %q", a) }, func() {
			readRune(w, a, 0)
			for b := 0; b < 256; b++ {
				ab := a + string([]byte{byte(b)})
				readRune(w, ab, 0)
				for x := 0; x < 256; x += c.quickOr(3, 1) {
					readRune(w, ab+string([]byte{byte(x)}), 0)
				}
				for x := 0x78; x < 0xC8; x += 7 {
					readRune(w, ab+"\x80"+string([]byte{byte(x)}), 0)
					readRune(w, ab+"\xbf"+string([]byte{byte(x)}), 0)
				}
			}
		})
	})
	overList(c, "scanstring", "texts of up to 5 of 8 symbols, every position, counts -2..8 and extreme ones", texts([]string{"a", "ä", "€", "😀", "\uFFFD", "\xff", "\xc3", "\xa4"}, c.quickOr(5, 6)), 64, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for p := 0; p <= len(t); p++ {
				for n := -2; n <= 8; n++ {
					scanString(w, t, p, n)
				}
				scanString(w, t, p, -1<<63)
				readRune(w, t, p)
				s := at(w, t, p)
				if _, ok := s.ScanString(1<<63 - 1); ok || int(s.Mark()) != p {
					w.Fail("ScanString(MaxInt) succeeds")
				}
			}
		})
	})
	overList(c, "specials", "texts of up to 4 special characters (line breaks, spaces, quotes, combining characters, ...), every position, counts -1..5", specialTexts3, 16, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			for p := 0; p <= len(t); p++ {
				for n := -1; n <= 5; n++ {
					scanString(w, t, p, n)
				}
				readRune(w, t, p)
			}
			for _, word := range []string{"true", "FALSE", "True"} {
				bools(w, t+word, len(t))
				bools(w, t+word, 0)
				bools(w, word+t, 0)
			}
		})
	})
	ladder(c, "ladder", 9999, func(run, sym string, n int) []ladderCase {
		return []ladderCase{{run, 0, []op{opScan(n), opScan(n - 1), opScan(n + 1)}}, {"z" + run, 1, []op{opScan(n), opScan(n + 1)}}, {run + "z", 0, []op{opScan(n), opScan(n + 1), opScan(n + 2)}}}
	})
	sized(c, "ladder-text", "ScanString returns the text, counts up to 300", 0, 300, 4097, func(w *W, n int) {
		for _, sym := range ladderSymbols {
			t := "q" + strings.Repeat(sym, n) + "z"
			w.Case(func() string { return fmt.Sprintf("%d times %q", n, sym) }, func() {
				scanString(w, t, 0, n)
				scanString(w, t, 1, n)
				scanString(w, t, 1, n+1)
				scanString(w, t, 1, n+2)
			})
		}
	})
	allRunes(c, "bool-code-points", func(w *W, r rune) {
		v := string(r)
		w.Case(func() string { return fmt.Sprintf("rune %q", v) }, func() {
			for _, word := range []string{"true", "TRUE", "True", "false", "FALSE", "False"} {
				for k := range word {
					t := word[:k] + v + word[k+1:]
					for _, f := range []string{"", "l", "U", "Cc"} {
						val, ok, pos := boolModel(t, 0, f)
						s := at(w, t, 0)
						w.trans++
						got, err := s.ReadBool(f)
						if (err == nil) != ok || int(s.Mark()) != pos || ok && got != val {
							w.Fail("ReadBool(%q) of %q: %v, error %v, moved to %d", f, t, got, err, s.Mark())
						}
					}
				}
			}
		})
	})
}

// ---------------------------------------------------------------------- C08

// A program is a list of actions; an action is a move or a scoped call.
type act struct {
	name string
	move func(s *tok.Scanner)
	to   func(t string, p int) int
	call *scall
}

type scall struct {
	kind int
	body []*act
	ok   bool
}

var scopeKinds = []string{"Scope", "Trace", "Tokenize", "Capture", "UseFunc", "TraceUseFunc", "Use", "TraceUse", "TokenizeUse", "CaptureUse"}

func (a *act) String() string {
	if a.call == nil {
		return a.name
	}
	return a.call.String()
}

func (c *scall) String() string {
	parts := []string{}
	for _, a := range c.body {
		parts = append(parts, a.String())
	}
	return fmt.Sprintf("%s{%s;%v}", scopeKinds[c.kind], strings.Join(parts, ";"), c.ok)
}

func clamp(t string, p, q int) int {
	if q < 0 || q > len(t) {
		return p
	}
	return q
}

var baseMoves = []*act{
	{name: "+1", move: func(s *tok.Scanner) { s.Move(1) }, to: func(t string, p int) int { return clamp(t, p, p+1) }},
	{name: "-1", move: func(s *tok.Scanner) { s.Move(-1) }, to: func(t string, p int) int { return clamp(t, p, p-1) }},
	{name: "end", move: func(s *tok.Scanner) { s.ToEnd() }, to: func(t string, p int) int { return len(t) }},
	{name: "start", move: func(s *tok.Scanner) { s.ToStart() }, to: func(t string, p int) int { return 0 }},
	{name: "+2", move: func(s *tok.Scanner) { s.Move(2) }, to: func(t string, p int) int { return clamp(t, p, p+2) }},
}

var errBody = errors.New("body failed")

// modelPos: where the scanner is after the call.
func (c *scall) modelPos(t string, p int) int {
	if !c.ok {
		return p
	}
	return runModel(c.body, t, p)
}

func runModel(body []*act, t string, p int) int {
	for _, a := range body {
		if a.call != nil {
			p = a.call.modelPos(t, p)
		} else {
			p = a.to(t, p)
		}
	}
	return p
}

func runBody(w *W, s *tok.Scanner, t string, body []*act) {
	for _, a := range body {
		if a.call != nil {
			runCall(w, s, t, a.call)
		} else {
			a.move(s)
		}
	}
}

func runCall(w *W, s *tok.Scanner, t string, c *scall) {
	start := int(s.Mark())
	fail := error(nil)
	if !c.ok {
		fail = errBody
	}
	calls := 0
	f := func() bool { calls++; runBody(w, s, t, c.body); return c.ok }
	rf := func(x *tok.Scanner) error {
		calls++
		if x != s {
			w.Fail("%s passes another scanner", c)
		}
		runBody(w, x, t, c.body)
		return fail
	}
	rd := tok.Wrap("body", rf)
	w.trans++
	var ok bool
	var err error
	str, tk, hasStr, hasTok := "", tok.Token{}, false, false
	switch c.kind {
	case 0:
		ok = s.Scope(f)
	case 1:
		str, ok = s.Trace(f)
		hasStr = true
	case 2:
		tk, ok = s.Tokenize(f)
		hasTok = true
	case 3:
		str, ok = s.Capture(f)
		hasStr = true
	case 4:
		err = s.UseFunc(rf)
	case 5:
		str, err = s.TraceUseFunc(rf)
		hasStr = true
	case 6:
		err = s.Use(rd)
	case 7:
		str, err = s.TraceUse(rd)
		hasStr = true
	case 8:
		tk, err = s.TokenizeUse(rd)
		hasTok = true
	case 9:
		str, err = s.CaptureUse(rd)
		hasStr = true
	}
	if c.kind >= 4 {
		ok = err == nil
		if !c.ok && err != fail {
			w.Fail("%s returns error %v", c, err)
		}
	}
	if calls != 1 {
		w.Fail("%s runs its body %d times", c, calls)
	}
	if ok != c.ok {
		w.Fail("%s returns %v", c, ok)
		return
	}
	want := c.modelPos(t, start)
	if int(s.Mark()) != want {
		w.Fail("%s from %d ends at %d, expected %d", c, start, s.Mark(), want)
		return
	}
	if !ok {
		return
	}
	a, b := start, want
	if a > b {
		a, b = b, a
	}
	if hasStr && str != t[a:b] {
		w.Fail("%s from %d to %d returns %q", c, start, want, str)
	}
	if hasTok && tk != tok.MakeToken(tok.Marker(a), tok.Marker(b)) {
		w.Fail("%s from %d to %d returns %s", c, start, want, tk)
	}
}

func moveSeqs(moves []*act, max int) [][]*act {
	res := [][]*act{{}}
	level := [][]*act{{}}
	for l := 0; l < max; l++ {
		next := [][]*act{}
		for _, b := range level {
			for _, m := range moves {
				next = append(next, append(append([]*act{}, b...), m))
			}
		}
		res = append(res, next...)
		level = next
	}
	return res
}

func callsOver(bodies [][]*act) []*scall {
	res := []*scall{}
	for k := range scopeKinds {
		for _, b := range bodies {
			res = append(res, &scall{k, b, true}, &scall{k, b, false})
		}
	}
	return res
}

func checkC08(c *Ctx) {
	txts := []string{"", "a", "ab", "äb", "abcd", "a\xffc", "😀x"}
	run := func(phase, bound string, calls []*scall, txts []string) {
		units := (len(calls) + 255) / 256
		c.Phase(phase, bound, units, func(w *W, u int) {
			for i := u * 256; i < len(calls) && i < (u+1)*256; i++ {
				call := calls[i]
				for _, t := range txts {
					w.Case(func() string { return fmt.Sprintf("%s on %q", call, t) }, func() {
						for p := 0; p <= len(t); p++ {
							s := at(w, t, p)
							runCall(w, s, t, call)
							consistent(w, s, t, call.modelPos(t, p))
						}
					})
				}
			}
		})
	}
	n := c.quickOr(4, 5)
	run("flat", fmt.Sprintf("10 calls, bodies of up to %d of 5 moves, success and failure", n), callsOver(moveSeqs(baseMoves, n)), txts)
	stay := func(t string, p int) int { return p }
	coupled := append(append([]*act{}, baseMoves[:4]...),
		&act{name: "couple basket", move: func(s *tok.Scanner) { s.NewBasket() }, to: stay},
		&act{name: "decouple", move: func(s *tok.Scanner) { s.Tracker = nil }, to: stay})
	run("coupling", "10 calls, bodies of up to 3 of 4 moves, a basket coupled, the tracker taken off", callsOver(moveSeqs(coupled, 3)), txts)
	// nested: pre move, inner call, post move
	inner := callsOver(moveSeqs(baseMoves[:4], 1))
	bodies := [][]*act{}
	opt := append([]*act{nil}, baseMoves[:4]...)
	for _, in := range inner {
		for _, pre := range opt {
			for _, post := range opt {
				b := []*act{}
				if pre != nil {
					b = append(b, pre)
				}
				b = append(b, &act{call: in})
				if post != nil {
					b = append(b, post)
				}
				bodies = append(bodies, b)
			}
		}
	}
	run("nested", "10 calls around 10 calls with a move before, inside and after", callsOver(bodies), txts[2:5])
	// two inner calls in one body, and three levels
	small := callsOver([][]*act{{}, {baseMoves[0]}, {baseMoves[1]}})
	bodies = [][]*act{}
	for _, x := range small {
		for _, y := range small {
			bodies = append(bodies, []*act{{call: x}, {call: y}})
			bodies = append(bodies, []*act{baseMoves[0], {call: &scall{x.kind, []*act{baseMoves[0], {call: y}}, x.ok}}})
		}
	}
	run("nested-3", "two calls in sequence or three levels deep", callsOver(bodies), []string{"ab", "äbc"})
	long := []string{}
	for _, n := range []int{10, 100, 1000, 5000} {
		for _, x := range []string{"a ", "\r\n", "ä\n", " \t"} {
			long = append(long, strings.Repeat(x, n))
		}
	}
	jump := []*act{}
	for _, n := range []int{3, 90, 900, -90} {
		n := n
		jump = append(jump, &act{name: fmt.Sprintf("Move(%d)", n), move: func(s *tok.Scanner) { s.Move(n) }, to: func(t string, p int) int {
			if p+n < 0 || p+n > len(t) {
				return p
			}
			return p + n
		}})
	}
	run("specials", "10 calls, bodies of up to 2 of 5 moves, texts of up to 4 special characters (line breaks, spaces, quotes, combining characters, ...)", callsOver(moveSeqs(baseMoves, 2)), specialTexts)
	calls := callsOver(moveSeqs(jump, 2))
	c.Phase("long", "10 calls, bodies of up to 2 long moves, texts of 20..10000 bytes at selected positions", len(calls), func(w *W, u int) {
		for _, t := range long {
			w.Case(func() string { return fmt.Sprintf("%s on %d bytes of %q", calls[u], len(t), t[:3]) }, func() {
				for _, p := range []int{0, 1, 2, len(t) / 2, len(t) - 2, len(t)} {
					s := at(w, t, p)
					runCall(w, s, t, calls[u])
					consistent(w, s, t, calls[u].modelPos(t, p))
				}
			})
		}
	})
	longTexts(c, longCalls("C08"))
	// While
	seqs := moveSeqs(baseMoves, 2)
	c.Phase("while", "While with bodies of up to 2 of 5 moves, 0..6 (thorough 0..200) repetitions", len(seqs), func(w *W, u int) {
		body := seqs[u]
		for k := 0; k <= c.quickOr(40, 200); k++ {
			for _, t := range txts {
				w.Case(func() string { return fmt.Sprintf("While body %v %d times on %q", body, k, t) }, func() {
					for p := 0; p <= len(t); p++ {
						s := at(w, t, p)
						n := 0
						got := s.While(func() bool {
							if n < k {
								runBody(w, s, t, body)
							}
							n++
							return n <= k
						})
						want := p
						for i := 0; i < k; i++ {
							want = runModel(body, t, want)
						}
						w.trans++
						if n != k+1 || int(s.Mark()) != want || got != (want > p) {
							w.Fail("from %d: %d calls, at %d, returned %v; expected %d calls, at %d", p, n, s.Mark(), got, k+1, want)
						}
					}
				})
			}
		}
	})
	// deep nesting
	sized(c, "deep", "nesting of one kind up to 200 levels, failure at each level", 0, 200, 4097, func(w *W, d int) {
		for kind := range scopeKinds {
			w.Case(func() string { return fmt.Sprintf("%s nested %d", scopeKinds[kind], d) }, func() {
				t := strings.Repeat("x", d+20)
				for _, failAt := range []int{-1, 0, d / 2, d} {
					call := &scall{kind, []*act{baseMoves[0]}, failAt != d}
					for l := d - 1; l >= 0; l-- {
						call = &scall{kind, []*act{baseMoves[0], {call: call}}, failAt != l}
					}
					s := at(w, t, 0)
					runCall(w, s, t, call)
				}
			})
		}
	})
}

// ---------------------------------------------------------------------- C30

func checkC30(c *Ctx) {
	model := func(t string, p, tab int) (int, int) {
		line, col := 1, 1
		for i := 0; i < p; i++ {
			switch {
			case t[i] == '\r' && i+1 < p && t[i+1] == '\n':
			case t[i] == '\n':
				line++
				col = 1
			case t[i] == '\t':
				col += tab
			default:
				col++
			}
		}
		return line, col
	}
	one := func(w *W, t string, tabs []int) {
		for p := 0; p <= len(t); p++ {
			for _, tab := range tabs {
				s := at(w, t, p)
				w.trans++
				l, k := s.LineCol(tab)
				wl, wk := model(t, p, tab)
				if l != wl || k != wk {
					w.Fail("LineCol(%d) at %d is %d:%d, expected %d:%d", tab, p, l, k, wl, wk)
				}
				if int(s.Mark()) != p {
					w.Fail("LineCol moved the scanner")
				}
			}
		}
	}
	lineHistories(c, model)
	hugeLines(c, model)
	tabs := []int{0, 1, 2, 3, 4, 7, 8, 100}
	overList(c, "texts", fmt.Sprintf("texts of up to %d of 6 symbols, every position, 8 tab widths", c.quickOr(7, 8)), texts([]string{"a", "\n", "\r", "\t", "ä", "\xff"}, c.quickOr(7, 8)), 256, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() { one(w, t, tabs) })
	})
	overList(c, "specials", "texts of up to 3 of 20 special characters, every position", specialTexts3, 64, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			one(w, t, []int{0, 4})
			one(w, "a\n\t"+t+"\r\nb", []int{4})
		})
	})
	allRunes(c, "all-code-points", func(w *W, r rune) {
		v := string(r)
		t := "a\n" + v + "b"
		w.Case(func() string { return fmt.Sprintf("text %q", t) }, func() {
			one(w, t, []int{4})
			one(w, v+"\r"+v+"\n"+v+"\t"+v, []int{4})
		})
	})
	sized(c, "ladder", "up to 300 lines, columns and tabs, lines with \\n, \\r\\n and mixed", 0, 300, 4097, func(w *W, n int) {
		for _, unit := range []string{"\n", "\r\n", "a\n", "\t", "ä", "\r", "ab\r\n", "\t\n", "\n\r"} {
			for _, tail := range []string{"", "x", "\tx", "\n", "\r"} {
				t := strings.Repeat(unit, n) + tail
				w.Case(func() string { return fmt.Sprintf("%d times %q then %q", n, unit, tail) }, func() {
					for _, p := range []int{0, 1, len(t) / 2, len(t) - 1, len(t)} {
						if p < 0 || p > len(t) {
							continue
						}
						s := at(w, t, p)
						l, k := s.LineCol(4)
						wl, wk := model(t, p, 4)
						w.trans++
						if l != wl || k != wk {
							w.Fail("LineCol at %d is %d:%d, expected %d:%d", p, l, k, wl, wk)
						}
					}
				})
			}
		}
	})
}
