package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// Reader expressions: an abstract syntax tree with two meanings. build creates
// the real reader, eval is the reference semantics (ordered choice).

type kind uint8

const (
	kLit kind = iota
	kRune
	kAnyRune
	kBetween
	kBetweenAny
	kSet
	kBuildBetween
	kHoley
	kMatch
	kFold
	kInt
	kUint
	kBool
	kAtEnd
	kWrap    // Wrap of a function that matches str, fails with an own error
	kInvalid // InvalidReader
	kJBeg
	kJEnd
	kSeq
	kAny
	kAnyFold
	kSkipSeq
	kSkipWS
	kAt
	kNot
	kOpt
	kZom
	kMany
	kTo
	kPast
	kTimes
	kBody
	kBodyTail
	kNamed
	kMap
	kPick
	kMonitor
	kRule
	kRef   // reference to a rule, see eRef
	kProbe // checks the sub reader, see builder
)

type ex struct {
	k     kind
	str   string
	str2  string
	r, r2 rune
	n, n2 int
	raw   bool // passed as string or rune where the constructor takes any type
	sub   []*ex
	ref   *ex    // of kRef
	what  string // model of What()
	size  int
}

func quoteR(r rune) string {
	q := strconv.QuoteRuneToGraphic(r)
	return q[1 : len(q)-1]
}

func mk(e ex) *ex {
	x := &e
	x.size = 1
	for _, s := range x.sub {
		x.size += s.size
	}
	x.what = x.modelWhat()
	return x
}

func eLit(s string) *ex               { return mk(ex{k: kLit, str: s}) }
func eLitRaw(s string) *ex            { return mk(ex{k: kLit, str: s, raw: true}) }
func eRune(r rune) *ex                { return mk(ex{k: kRune, r: r}) }
func eRuneRaw(r rune) *ex             { return mk(ex{k: kRune, r: r, raw: true}) }
func eAnyRune(s string) *ex           { return mk(ex{k: kAnyRune, str: s}) }
func eBetween(a, b rune) *ex          { return mk(ex{k: kBetween, r: a, r2: b}) }
func eBetweenAny(s string) *ex        { return mk(ex{k: kBetweenAny, str: s}) }
func eSet(a, b string) *ex            { return mk(ex{k: kSet, str: a, str2: b}) }
func eBuildBetween(s string) *ex      { return mk(ex{k: kBuildBetween, str: s}) }
func eHoley(a, b rune, h string) *ex  { return mk(ex{k: kHoley, r: a, r2: b, str: h}) }
func eMatch(i int) *ex                { return mk(ex{k: kMatch, n: i}) }
func eFold(s string) *ex              { return mk(ex{k: kFold, str: s}) }
func eInt(b, n int) *ex               { return mk(ex{k: kInt, n: b, n2: n}) }
func eUint(b, n int) *ex              { return mk(ex{k: kUint, n: b, n2: n}) }
func eBool(f string) *ex              { return mk(ex{k: kBool, str: f}) }
func eAtEnd() *ex                     { return mk(ex{k: kAtEnd}) }
func eWrap(s string) *ex              { return mk(ex{k: kWrap, str: s}) }
func eInvalid(n int) *ex              { return mk(ex{k: kInvalid, n: n}) }
func eJBeg(name string, s *ex) *ex    { return mk(ex{k: kJBeg, str: name, sub: []*ex{s}}) }
func eJEnd(name string) *ex           { return mk(ex{k: kJEnd, str: name}) }
func eSeq(s ...*ex) *ex               { return mk(ex{k: kSeq, sub: s}) }
func eAny(s ...*ex) *ex               { return mk(ex{k: kAny, sub: s}) }
func eAnyFold(s string) *ex           { return mk(ex{k: kAnyFold, str: s}) } // words separated by a space
func eSkipSeq(sk *ex, s ...*ex) *ex   { return mk(ex{k: kSkipSeq, sub: append([]*ex{sk}, s...)}) }
func eSkipWS(s ...*ex) *ex            { return mk(ex{k: kSkipWS, sub: s}) }
func eUn(k kind, s *ex) *ex           { return mk(ex{k: k, sub: []*ex{s}}) }
func eTimes(n int, s *ex) *ex         { return mk(ex{k: kTimes, n: n, sub: []*ex{s}}) }
func eBin(k kind, a, b *ex) *ex       { return mk(ex{k: k, sub: []*ex{a, b}}) }
func eNamed(name string, s *ex) *ex   { return mk(ex{k: kNamed, str: name, sub: []*ex{s}}) }
func eRule(name string, s *ex) *ex    { return mk(ex{k: kRule, str: name, sub: []*ex{s}}) }
func ePick(name string, s *ex) *ex    { return mk(ex{k: kPick, str: name, sub: []*ex{s}}) }
func eMap(name string, s *ex) *ex     { return mk(ex{k: kMap, str: name, sub: []*ex{s}}) }
func eMonitor(name string, s *ex) *ex { return mk(ex{k: kMonitor, str: name, sub: []*ex{s}}) }
func eRef(name string) *ex            { return mk(ex{k: kRef, str: name}) } // ref is set later
func eProbe(s *ex) *ex                { return mk(ex{k: kProbe, sub: []*ex{s}}) }

var invalidArgs = []func() tok.Reader{
	func() tok.Reader { return tok.InvalidReader("broken %d", 1) },
	func() tok.Reader { return tok.BetweenAny("a-zA") },
	func() tok.Reader { return tok.BetweenAny("a+z") },
	func() tok.Reader { return tok.Set("az-", "x") },
	func() tok.Reader { return tok.BuildBetweenAny('a') },
	func() tok.Reader { return tok.Any("a", 1) },
	func() tok.Reader { return tok.Seq(1.5) },
	func() tok.Reader { return tok.SkipSeq(tok.WS(), 'a', byte('b')) },
	func() tok.Reader { return tok.SkipWSSeq(nil) },
	func() tok.Reader { return tok.Opt(nil) },
	func() tok.Reader { return tok.Zom([]string{"a"}) },
	func() tok.Reader { return tok.Many(true) },
	func() tok.Reader { return tok.To(int64(3)) },
	func() tok.Reader { return tok.Past(struct{}{}) },
}

// ------------------------------------------------------------ model of What

func (e *ex) subWhats(from int) string {
	parts := []string{}
	for _, s := range e.sub[from:] {
		parts = append(parts, s.what)
	}
	return strings.Join(parts, " ")
}

func rangesOf(s string) (min, max []rune) {
	rs := []rune(s)
	for i := 0; i+2 < len(rs); i += 3 {
		min = append(min, rs[i])
		max = append(max, rs[i+2])
	}
	return
}

func pairsOf(s string) (min, max []rune) {
	rs := []rune(s)
	for i := 0; i+1 < len(rs); i += 2 {
		min = append(min, rs[i])
		max = append(max, rs[i+1])
	}
	return
}

func rangesWhat(min, max []rune, singles string) string {
	s := "[<"
	for i := range min {
		s += " " + quoteR(min[i]) + quoteR(max[i])
	}
	if singles != "" {
		s += " " + strconv.QuoteToGraphic(singles)
	}
	return s + " >]"
}

func betweenWhat(min, max rune) string {
	if min == max {
		return strconv.QuoteRuneToGraphic(min)
	}
	return "<" + quoteR(min) + quoteR(max) + ">"
}

func (e *ex) modelWhat() string {
	switch e.k {
	case kLit:
		return strconv.QuoteToGraphic(e.str)
	case kRune:
		return strconv.QuoteRuneToGraphic(e.r)
	case kAnyRune:
		return "[" + strconv.QuoteToGraphic(e.str) + "]"
	case kBetween:
		return betweenWhat(e.r, e.r2)
	case kBetweenAny:
		a, b := rangesOf(e.str)
		return rangesWhat(a, b, "")
	case kSet:
		a, b := rangesOf(e.str)
		return rangesWhat(a, b, e.str2)
	case kBuildBetween:
		a, b := pairsOf(e.str)
		return rangesWhat(a, b, "")
	case kHoley:
		return "(" + betweenWhat(e.r, e.r2) + " - " + strconv.QuoteToGraphic(e.str) + ")"
	case kMatch:
		return matchArgs[e.n].name
	case kFold:
		return "~" + strconv.QuoteToGraphic(e.str)
	case kInt:
		return fmt.Sprintf("int{%d,%d}", e.n, e.n2)
	case kUint:
		return fmt.Sprintf("uint{%d,%d}", e.n, e.n2)
	case kBool:
		return "bool{" + strconv.QuoteToGraphic(e.str) + "}"
	case kAtEnd:
		return "@END"
	case kWrap:
		return "wrap-" + e.str
	case kInvalid:
		return invalidArgs[e.n]().What() // the reason is free text, see C27
	case kJBeg:
		return "$" + e.str + "<" + e.sub[0].what
	case kJEnd:
		return "$" + e.str
	case kSeq:
		return e.subWhats(0)
	case kAny:
		return "[ " + e.subWhats(0) + " ]"
	case kAnyFold:
		parts := []string{}
		for _, s := range strings.Fields(e.str) {
			parts = append(parts, "~"+strconv.QuoteToGraphic(s))
		}
		return "[ " + strings.Join(parts, " ") + " ]"
	case kSkipSeq:
		if len(e.sub) == 1 {
			return "(>" + e.sub[0].what + "> )"
		}
		return "(>" + e.sub[0].what + "> " + e.subWhats(1) + " )"
	case kSkipWS:
		ws := `*[" \r\n\t"]`
		if len(e.sub) == 0 {
			return "(>" + ws + "> )"
		}
		return "(>" + ws + "> " + e.subWhats(0) + " )"
	case kAt:
		return "@" + e.sub[0].what
	case kNot:
		return "!" + e.sub[0].what
	case kOpt:
		return "?" + e.sub[0].what
	case kZom:
		return "*" + e.sub[0].what
	case kMany:
		return "+" + e.sub[0].what
	case kTo:
		return "->" + e.sub[0].what
	case kPast:
		return "-->" + e.sub[0].what
	case kTimes:
		return fmt.Sprintf("%d*", e.n) + e.sub[0].what
	case kBody:
		return "-(" + e.sub[0].what + "-" + e.sub[1].what + ")-"
	case kBodyTail:
		return "-(" + e.sub[0].what + "-+" + e.sub[1].what + ")-"
	case kNamed, kRule, kRef:
		return e.str
	case kMap, kPick, kMonitor, kProbe:
		return e.sub[0].what
	}
	panic("kind")
}

var kindNames = map[kind]string{kLit: "Lit", kRune: "Rune", kAnyRune: "AnyRune", kBetween: "Between", kBetweenAny: "BetweenAny", kSet: "Set", kBuildBetween: "BuildBetweenAny", kHoley: "Holey",
	kMatch: "Match", kFold: "Fold", kInt: "Int", kUint: "Uint", kBool: "Bool", kAtEnd: "AtEnd", kWrap: "Wrap", kInvalid: "Invalid", kJBeg: "JanusBegin", kJEnd: "JanusEnd", kSeq: "Seq", kAny: "Any",
	kAnyFold: "AnyFold", kSkipSeq: "SkipSeq", kSkipWS: "SkipWSSeq", kAt: "At", kNot: "Not", kOpt: "Opt", kZom: "Zom", kMany: "Many", kTo: "To", kPast: "Past", kTimes: "Times", kBody: "Body", kBodyTail: "BodyTail",
	kNamed: "Named", kMap: "Map", kPick: "Pick", kMonitor: "Monitor", kRule: "Rule", kRef: "Ref", kProbe: "Probe"}

func (e *ex) String() string {
	args := []string{}
	switch e.k {
	case kLit, kAnyRune, kBetweenAny, kBuildBetween, kFold, kBool, kWrap, kAnyFold, kJEnd:
		args = append(args, strconv.QuoteToASCII(e.str))
	case kRune:
		args = append(args, strconv.QuoteRuneToASCII(e.r))
	case kBetween:
		args = append(args, strconv.QuoteRuneToASCII(e.r), strconv.QuoteRuneToASCII(e.r2))
	case kHoley:
		args = append(args, strconv.QuoteRuneToASCII(e.r), strconv.QuoteRuneToASCII(e.r2), strconv.QuoteToASCII(e.str))
	case kSet:
		args = append(args, strconv.QuoteToASCII(e.str), strconv.QuoteToASCII(e.str2))
	case kMatch:
		args = append(args, matchArgs[e.n].name)
	case kInt, kUint:
		args = append(args, strconv.Itoa(e.n), strconv.Itoa(e.n2))
	case kTimes, kInvalid:
		args = append(args, strconv.Itoa(e.n))
	case kNamed, kRule, kPick, kMap, kMonitor, kJBeg:
		args = append(args, strconv.QuoteToASCII(e.str))
	}
	if e.raw {
		return strings.Join(args, ",")
	}
	for i, s := range e.sub {
		if i == 12 && len(e.sub) > 14 {
			args = append(args, fmt.Sprintf("...%d in total", len(e.sub)))
			break
		}
		args = append(args, s.String())
	}
	return kindNames[e.k] + "(" + strings.Join(args, ", ") + ")"
}

// ------------------------------------------------------------------- build

type pair struct{ beg, end tok.Reader }

type builder struct {
	w       *W
	root    *ex
	janus   map[string]*pair
	basket  *tok.Basket
	log     *tok.Log
	onMap   func(name string, t tok.Token)
	onProbe func(e *ex, from, to int, err error)
	onEnter func(e *ex, from int)
	ints    []*tok.IntReader
	uints   []*tok.UintReader
	bools   []*tok.BoolReader
	rules   []*tok.Rule
}

var errWrap = errors.New("wrapped function failed")

// arg creates the argument for a constructor that takes runes, strings and readers.
func (b *builder) arg(e *ex) interface{} {
	if e.raw {
		if e.k == kLit {
			return e.str
		}
		if e.k == kRune {
			return e.r
		}
	}
	return b.build(e)
}

func (b *builder) args(list []*ex) []interface{} {
	res := []interface{}{}
	for _, e := range list {
		res = append(res, b.arg(e))
	}
	return res
}

func (b *builder) build(e *ex) tok.Reader {
	if b.root == nil {
		b.root = e
	}
	switch e.k {
	case kLit:
		return tok.Lit(e.str)
	case kRune:
		return tok.Rune(e.r)
	case kAnyRune:
		return tok.AnyRune(e.str)
	case kBetween:
		return tok.Between(e.r, e.r2)
	case kBetweenAny:
		return tok.BetweenAny(e.str)
	case kSet:
		return tok.Set(e.str, e.str2)
	case kBuildBetween:
		return tok.BuildBetweenAny([]rune(e.str)...)
	case kHoley:
		return tok.Holey(e.r, e.r2, e.str)
	case kMatch:
		return tok.Match(matchArgs[e.n].name, tok.MatchFunc(matchArgs[e.n].f))
	case kFold:
		return tok.Fold(e.str)
	case kInt:
		r := tok.Int(e.n, e.n2)
		b.ints = append(b.ints, r)
		return r
	case kUint:
		r := tok.Uint(e.n, e.n2)
		b.uints = append(b.uints, r)
		return r
	case kBool:
		r := tok.Bool(e.str)
		b.bools = append(b.bools, r)
		return r
	case kAtEnd:
		return tok.AtEnd()
	case kWrap:
		str := e.str
		return tok.Wrap(e.what, func(s *tok.Scanner) error {
			if s.If(str) {
				return nil
			}
			return errWrap
		})
	case kInvalid:
		return invalidArgs[e.n]()
	case kJBeg:
		return b.pair(e.str, e.sub[0]).beg
	case kJEnd:
		return b.pair(e.str, nil).end
	case kSeq:
		return tok.Seq(b.args(e.sub)...)
	case kAny:
		return tok.Any(b.args(e.sub)...)
	case kAnyFold:
		return tok.AnyFold(strings.Fields(e.str)...)
	case kSkipSeq:
		return tok.SkipSeq(b.build(e.sub[0]), b.args(e.sub[1:])...)
	case kSkipWS:
		return tok.SkipWSSeq(b.args(e.sub)...)
	case kAt:
		return tok.At(b.build(e.sub[0]))
	case kNot:
		return tok.Not(b.build(e.sub[0]))
	case kOpt:
		return tok.Opt(b.arg(e.sub[0]))
	case kZom:
		return tok.Zom(b.arg(e.sub[0]))
	case kMany:
		return tok.Many(b.arg(e.sub[0]))
	case kTo:
		return tok.To(b.arg(e.sub[0]))
	case kPast:
		return tok.Past(b.arg(e.sub[0]))
	case kTimes:
		return tok.Times(e.n, b.build(e.sub[0]))
	case kBody:
		return tok.Body(b.build(e.sub[0]), b.build(e.sub[1]))
	case kBodyTail:
		return tok.BodyTail(b.build(e.sub[0]), b.build(e.sub[1]))
	case kNamed:
		return tok.Named(e.str, b.build(e.sub[0]))
	case kMap:
		name := e.str
		return tok.Map(b.build(e.sub[0]), func(t tok.Token) {
			if b.onMap != nil {
				b.onMap(name, t)
			}
		})
	case kPick:
		return tok.Pick(b.build(e.sub[0]), b.basket, e.str)
	case kMonitor:
		return tok.Monitor(b.build(e.sub[0]), b.log, e.str)
	case kRule:
		r := &tok.Rule{Name: e.str, Reader: b.build(e.sub[0])}
		if e.n&1 != 0 {
			r.Pick(b.basket)
		}
		if e.n&2 != 0 {
			r.Monitor(b.log)
		}
		if e.n&4 != 0 {
			r.Map(func(tok.Token) {})
		}
		b.rules = append(b.rules, r)
		return r
	case kProbe:
		sub := b.build(e.sub[0])
		return tok.Wrap(e.what, func(s *tok.Scanner) error {
			m := int(s.Mark())
			if b.onEnter != nil {
				b.onEnter(e, m)
			}
			err := sub.Read(s)
			if b.onProbe != nil {
				b.onProbe(e, m, int(s.Mark()), err)
			}
			return err
		})
	}
	panic("kind")
}

// pair creates a Janus pair per name; the first begin defines the sub reader.
func (b *builder) pair(name string, sub *ex) *pair {
	if b.janus == nil {
		b.janus = map[string]*pair{}
	}
	p, ok := b.janus[name]
	if !ok {
		if sub == nil {
			sub = findBegin(b.root, name)
		}
		if sub == nil {
			sub = eLit("\x00never")
		}
		p = &pair{}
		p.beg, p.end = tok.Janus(name, b.build(sub))
		b.janus[name] = p
	}
	return p
}

func findBegin(e *ex, name string) *ex {
	if e.k == kJBeg && e.str == name {
		return e.sub[0]
	}
	for _, s := range e.sub {
		if f := findBegin(s, name); f != nil {
			return f
		}
	}
	return nil
}

// ------------------------------------------------------------ reference

const (
	errNone  = 0
	errRead  = 1 // a ReadError
	errOther = 2
)

type mr struct {
	ok   bool
	pos  int
	kind uint8
	em   int    // position of the ReadError
	ew   string // What of the ReadError
	ew2  string // accepted alternative
}

type seg struct {
	info     string
	from, to int
}

type interp struct {
	t     string
	janus map[string]string
	// spec: picks of the successful path. sim: the same, but a pick that is
	// empty and lies at the place where reading continues is not given up
	// (the known finding empty-pick-backtrack).
	spec, sim []seg
	amb       bool // picks of a repetition that matched without moving
	steps     int
	memo      bool
}

func fails(e *ex, p int) mr { return mr{false, p, errRead, p, e.what, ""} }
func oks(p int) mr          { return mr{ok: true, pos: p} }

// back gives up everything picked since n; reading continues at p.
func (in *interp) back(n, p int) {
	in.spec = in.spec[:n]
	i := len(in.sim)
	for i > 0 && in.sim[i-1].to > p {
		i--
	}
	in.sim = in.sim[:i]
}

func leaf(e *ex, r sres) mr {
	if r.ok {
		return oks(r.pos)
	}
	return fails(e, r.pos)
}

func inRanges(min, max []rune, singles string) pred {
	return func(r rune) bool {
		for i := range min {
			if min[i] <= r && r <= max[i] {
				return true
			}
		}
		for _, x := range singles {
			if x == r {
				return true
			}
		}
		return false
	}
}

// eval reads with e at p; the text ends at lim.
func (in *interp) eval(e *ex, p, lim int) mr {
	in.steps++
	t := in.t[:lim]
	switch e.k {
	case kLit:
		if has(t, p, e.str) {
			return oks(p + len(e.str))
		}
		return fails(e, p)
	case kRune:
		return leaf(e, ifPred(t, p, isRune(e.r)))
	case kAnyRune:
		return leaf(e, ifPred(t, p, inSet(e.str)))
	case kBetween:
		return leaf(e, ifPred(t, p, between(e.r, e.r2)))
	case kBetweenAny:
		a, b := rangesOf(e.str)
		return leaf(e, ifPred(t, p, inRanges(a, b, "")))
	case kSet:
		a, b := rangesOf(e.str)
		return leaf(e, ifPred(t, p, inRanges(a, b, e.str2)))
	case kBuildBetween:
		a, b := pairsOf(e.str)
		return leaf(e, ifPred(t, p, inRanges(a, b, "")))
	case kHoley:
		f := inSet(e.str)
		return leaf(e, ifPred(t, p, func(r rune) bool { return e.r <= r && r <= e.r2 && !f(r) }))
	case kMatch:
		return leaf(e, ifPred(t, p, matchArgs[e.n].f))
	case kFold:
		if q, ok := foldAt(t, p, foldKeys(e.str)); ok {
			return oks(q)
		}
		return fails(e, p)
	case kInt, kUint:
		m := readIntModel(t, p, e.n, e.n2, e.k == kInt)
		if m.ok {
			return oks(m.pos)
		}
		if !validInt(e.n, e.n2) {
			return mr{false, p, errOther, 0, "", ""}
		}
		r := fails(e, p)
		r.ew2 = "integer"
		if e.k == kUint {
			r.ew2 = "unsigned integer"
		}
		return r
	case kBool:
		_, ok, q := boolModel(t, p, e.str)
		if ok {
			return oks(q)
		}
		switch e.str {
		case "", "*", "l", "U", "Cc":
			r := fails(e, p)
			r.ew2 = "bool"
			return r
		}
		return mr{false, p, errOther, 0, "", ""}
	case kAtEnd:
		if p == lim {
			return oks(p)
		}
		return fails(e, p)
	case kWrap:
		if has(t, p, e.str) {
			return oks(p + len(e.str))
		}
		return mr{false, p, errOther, 0, "", ""}
	case kInvalid:
		return mr{false, p, errOther, 0, "", ""}
	case kJBeg:
		r := in.eval(e.sub[0], p, lim)
		if r.ok {
			if in.janus == nil {
				in.janus = map[string]string{}
			}
			in.janus[e.str] = t[p:r.pos]
		}
		return r
	case kJEnd:
		str := in.janus[e.str]
		if has(t, p, str) {
			return oks(p + len(str))
		}
		r := fails(e, p)
		r.ew2 = strconv.QuoteToGraphic(str)
		return r
	case kSeq:
		return in.evalSeq(e.sub, p, lim)
	case kAny:
		n := len(in.spec)
		best := fails(e, p)
		found := false
		for _, s := range e.sub {
			r := in.eval(s, p, lim)
			if r.ok {
				return r
			}
			if r.kind == errRead && (!found || r.em >= best.em) {
				best, found = r, true
			}
		}
		in.back(n, p)
		best.pos = p
		return best
	case kAnyFold:
		best := fails(e, p)
		for _, s := range strings.Fields(e.str) {
			if q, ok := foldAt(t, p, foldKeys(s)); ok {
				return oks(q)
			}
			best.ew = "~" + strconv.QuoteToGraphic(s)
		}
		return best
	case kSkipSeq, kSkipWS:
		skip := wsSkip
		list := e.sub
		if e.k == kSkipSeq {
			skip, list = e.sub[0], e.sub[1:]
		}
		all := make([]*ex, 0, 2*len(list)+1)
		all = append(all, skip)
		for _, s := range list {
			all = append(all, s, skip)
		}
		return in.evalSeq(all, p, lim)
	case kAt:
		n := len(in.spec)
		r := in.eval(e.sub[0], p, lim)
		in.back(n, p)
		r.pos = p
		return r
	case kNot:
		n := len(in.spec)
		r := in.eval(e.sub[0], p, lim)
		in.back(n, p)
		if r.ok {
			return mr{false, p, errRead, p, e.sub[0].what, e.what}
		}
		if p == lim {
			return fails(e, p)
		}
		_, d := utf8.DecodeRuneInString(t[p:])
		return oks(p + d)
	case kOpt:
		r := in.eval(e.sub[0], p, lim)
		if !r.ok {
			return oks(p)
		}
		return r
	case kZom, kMany:
		n := len(in.spec)
		q := p
		for {
			k := len(in.spec)
			r := in.eval(e.sub[0], q, lim)
			if !r.ok {
				break
			}
			if r.pos == q {
				if len(in.spec) > k {
					in.amb = true
				}
				break
			}
			q = r.pos
		}
		if e.k == kMany && q == p {
			in.back(n, p)
			return fails(e, p)
		}
		return oks(q)
	case kTimes:
		n := len(in.spec)
		q := p
		for i := 0; i < e.n; i++ {
			r := in.eval(e.sub[0], q, lim)
			if !r.ok {
				in.back(n, p)
				r.pos = p
				return r
			}
			q = r.pos
		}
		return oks(q)
	case kTo, kPast:
		for q := p; ; {
			n := len(in.spec)
			r := in.eval(e.sub[0], q, lim)
			if r.ok {
				if e.k == kTo {
					in.back(n, q)
					return oks(q)
				}
				return r
			}
			if q >= lim {
				break
			}
			_, d := utf8.DecodeRuneInString(t[q:])
			q += d
		}
		in.back(len(in.spec), p)
		return fails(e, p)
	case kBody, kBodyTail:
		n := len(in.spec)
		for q := p; ; {
			r := in.eval(e.sub[1], q, lim)
			if r.ok {
				in.back(n, p)
				b := in.eval(e.sub[0], p, q)
				if b.ok && b.pos == q {
					if e.k == kBody {
						return oks(q)
					}
					if r = in.eval(e.sub[1], q, lim); r.ok {
						return r
					}
				}
				break
			}
			if q >= lim {
				break
			}
			_, d := utf8.DecodeRuneInString(t[q:])
			q += d
		}
		in.back(n, p)
		return fails(e, p)
	case kPick:
		r := in.eval(e.sub[0], p, lim)
		if r.ok {
			in.spec = append(in.spec, seg{e.str, p, r.pos})
			in.sim = append(in.sim, seg{e.str, p, r.pos})
		}
		return r
	case kNamed, kMap, kMonitor, kProbe:
		return in.eval(e.sub[0], p, lim)
	case kRef:
		return in.eval(e.ref, p, lim)
	case kRule:
		r := in.eval(e.sub[0], p, lim)
		if r.ok && e.n&1 != 0 {
			in.spec = append(in.spec, seg{e.str, p, r.pos})
			in.sim = append(in.sim, seg{e.str, p, r.pos})
		}
		return r
	}
	panic("kind")
}

var wsSkip = eUn(kZom, eAnyRune(" \r\n\t"))

func validInt(base, bits int) bool {
	return (base == 8 || base == 10 || base == 16) && (bits == 8 || bits == 16 || bits == 32 || bits == 64)
}

func (in *interp) evalSeq(list []*ex, p, lim int) mr {
	n := len(in.spec)
	q := p
	for _, s := range list {
		r := in.eval(s, q, lim)
		if !r.ok {
			in.back(n, p)
			r.pos = p
			return r
		}
		q = r.pos
	}
	return oks(q)
}
