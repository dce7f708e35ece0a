package main

import "strings"

// A scanner and a recognizer for Lua 5.4, written after the manual (3.1 and 9)
// and independent of the grammar in the repository. As in Lua the scanner takes
// the longest token and a call is continued as long as possible.

type luaTok struct {
	kind string // "name", "num", "str", otherwise the token itself
	from int
	to   int
}

var luaOps = []string{"...", "<<", ">>", "//", "==", "~=", "<=", ">=", "::", "..", "+", "-", "*", "/", "%", "^", "#", "&", "~", "|", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."}

// luaLex returns the tokens; ok is false if the text can't be split in tokens.
// risky: another way to cut the text in tokens might be valid (the grammar of
// the repository works without a scanner), so a refusal is not demanded.
func luaLex(t string) (toks []luaTok, ok, risky bool) {
	risky = strings.Contains(t, "[[[") || strings.Contains(t, "[[=") || strings.Contains(t, "\\\n\r")
	p := 0
	for {
		for p < len(t) {
			if strings.IndexByte(" \t\r\n\v\f", t[p]) >= 0 {
				p++
				continue
			}
			if has(t, p, "--") {
				e := lexComment(t, p)
				if e < 0 {
					return toks, false, risky
				}
				p = e
				continue
			}
			break
		}
		if p >= len(t) {
			return toks, true, risky
		}
		b := t[p]
		switch {
		case isLetter(b):
			e := lexWord(t, p)
			k := "name"
			if lexName(t, p) < 0 {
				k = t[p:e]
			}
			toks = append(toks, luaTok{k, p, e})
			p = e
			continue
		case isD(t, p) || b == '.' && isD(t, p+1):
			e := lexNumeral(t, p)
			if e < len(t) && (isWordByte(t[e]) || t[e] == '.') {
				return toks, false, risky
			}
			toks = append(toks, luaTok{"num", p, e})
			p = e
			continue
		case b == '"' || b == '\'' || opensLong(t, p):
			e := lexString(t, p)
			if e < 0 {
				return toks, false, risky
			}
			toks = append(toks, luaTok{"str", p, e})
			p = e
			continue
		}
		found := false
		for _, o := range luaOps {
			if has(t, p, o) {
				e := p + len(o)
				if o == "..." && (isD(t, e) || has(t, e, ".") || p > 0 && t[p-1] == '.') {
					risky = true
				}
				if n := len(toks); o == ">=" && n >= 2 && toks[n-1].kind == "name" && toks[n-2].kind == "<" {
					risky = true
				}
				toks = append(toks, luaTok{o, p, e})
				p = e
				found = true
				break
			}
		}
		if !found {
			return toks, false, risky
		}
	}
}

type luaStatus int

const (
	luaValid      luaStatus = iota
	luaIncomplete           // the beginning of a valid chunk, but not valid itself
	luaInvalid
)

// luaNode is an occurrence of a rule of the grammar, in positions of tokens.
type luaNode struct {
	rule        string
	first, last int
}

type luaParser struct {
	toks  []luaTok
	p     int
	rec   bool
	nodes []luaNode
}

// node records that the tokens from first up to the position are a rule.
func (p *luaParser) node(rule string, first int) {
	if p.rec && p.p > first {
		p.nodes = append(p.nodes, luaNode{rule, first, p.p - 1})
	}
}

// luaNodes returns the occurrences of the rules of a valid chunk.
func luaNodes(toks []luaTok) []luaNode {
	p := &luaParser{toks: toks, rec: true}
	p.block()
	p.node("chunk", 0)
	if p.p < len(p.toks) {
		panic("not a chunk")
	}
	for i, t := range toks {
		switch t.kind {
		case "name":
			p.nodes = append(p.nodes, luaNode{"Name", i, i})
		case "num":
			p.nodes = append(p.nodes, luaNode{"Numeral", i, i})
		case "str":
			p.nodes = append(p.nodes, luaNode{"LiteralString", i, i})
		}
	}
	return p.nodes
}

func luaParse(toks []luaTok) (st luaStatus) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(luaStatus)
			if !ok {
				panic(r)
			}
			st = s
		}
	}()
	p := &luaParser{toks: toks}
	p.block()
	if p.p < len(p.toks) {
		return luaInvalid
	}
	return luaValid
}

func (p *luaParser) peek() string {
	if p.p >= len(p.toks) {
		return ""
	}
	return p.toks[p.p].kind
}

func (p *luaParser) bad() {
	if p.p >= len(p.toks) {
		panic(luaIncomplete)
	}
	panic(luaInvalid)
}

func (p *luaParser) is(k string) bool { return p.peek() == k }

func (p *luaParser) opt(k string) bool {
	if p.peek() == k {
		p.p++
		return true
	}
	return false
}

func (p *luaParser) need(k string) {
	if !p.opt(k) {
		p.bad()
	}
}

func (p *luaParser) blockEnd() bool {
	switch p.peek() {
	case "", "else", "elseif", "end", "until":
		return true
	}
	return false
}

func (p *luaParser) block() {
	beg := p.p
	defer func() { p.node("block", beg) }()
	for !p.blockEnd() {
		m := p.p
		if p.opt("return") {
			if !p.blockEnd() && !p.is(";") {
				p.explist()
			}
			p.opt(";")
			p.node("retstat", m)
			if !p.blockEnd() {
				p.bad()
			}
			return
		}
		if r := p.stat(); r != "" {
			p.node(r, m)
		}
		p.node("stat", m)
	}
}

// stat returns the name of the rule of the statement, or nothing.
func (p *luaParser) stat() string {
	switch p.peek() {
	case ";":
		p.p++
		return ""
	case "break":
		p.p++
		return "break"
	case "::":
		p.p++
		p.need("name")
		p.need("::")
		return "label"
	case "goto":
		p.p++
		p.need("name")
		return "goto"
	case "do":
		p.p++
		p.block()
		p.need("end")
		return "do"
	case "while":
		p.p++
		p.exp()
		p.need("do")
		p.block()
		p.need("end")
		return "while"
	case "repeat":
		p.p++
		p.block()
		p.need("until")
		p.exp()
		return "repeat"
	case "if":
		p.p++
		p.exp()
		p.need("then")
		p.block()
		for p.opt("elseif") {
			p.exp()
			p.need("then")
			p.block()
		}
		if p.opt("else") {
			p.block()
		}
		p.need("end")
		return "ifelse"
	case "for":
		p.p++
		m := p.p
		r := "foreach"
		p.need("name")
		if p.opt("=") {
			r = "for"
			p.exp()
			p.need(",")
			p.exp()
			if p.opt(",") {
				p.exp()
			}
		} else {
			for p.opt(",") {
				p.need("name")
			}
			p.node("namelist", m)
			p.need("in")
			p.explist()
		}
		p.need("do")
		p.block()
		p.need("end")
		return r
	case "function":
		p.p++
		m := p.p
		p.need("name")
		for p.opt(".") {
			p.need("name")
		}
		if p.opt(":") {
			p.need("name")
		}
		p.node("funcname", m)
		p.body()
		return "func"
	case "local":
		p.p++
		if p.opt("function") {
			p.need("name")
			p.body()
			return "localfunc"
		}
		m := p.p
		for {
			p.need("name")
			a := p.p
			if p.opt("<") {
				p.need("name")
				p.need(">")
				p.node("attrib", a)
			}
			if !p.opt(",") {
				break
			}
		}
		p.node("attnamelist", m)
		if p.opt("=") {
			p.explist()
		}
		return "localatt"
	default:
		m := p.p
		k := p.suffixed()
		if p.is("=") || p.is(",") {
			a := m
			for {
				if k != "var" {
					p.bad()
				}
				p.node("var", a)
				if !p.opt(",") {
					break
				}
				a = p.p
				k = p.suffixed()
			}
			if k != "var" {
				p.bad()
			}
			p.node("varlist", m)
			p.need("=")
			p.explist()
			return ""
		}
		if k != "call" {
			p.bad()
		}
		return "funccall"
	}
}

func (p *luaParser) body() {
	beg := p.p
	p.need("(")
	m := p.p
	if !p.is(")") {
		n := m
		for {
			if p.opt("...") {
				break
			}
			p.need("name")
			n = p.p
			if !p.opt(",") {
				break
			}
		}
		if n > m && p.rec {
			p.nodes = append(p.nodes, luaNode{"namelist", m, n - 1})
		}
	}
	p.node("funcparams", m)
	p.need(")")
	p.block()
	p.need("end")
	p.node("funcbody", beg)
}

func (p *luaParser) explist() {
	m := p.p
	p.exp()
	for p.opt(",") {
		p.exp()
	}
	p.node("explist", m)
}

var luaBinary = map[string]bool{"+": true, "-": true, "*": true, "/": true, "//": true, "%": true, "^": true, "&": true, "~": true, "|": true, "<<": true, ">>": true, "..": true, "<": true, "<=": true, ">": true, ">=": true, "==": true, "~=": true, "and": true, "or": true}

func (p *luaParser) exp() {
	beg := p.p
	for {
		for p.is("-") || p.is("not") || p.is("#") || p.is("~") {
			p.p++
			p.node("unop", p.p-1)
		}
		m := p.p
		switch p.peek() {
		case "num", "str", "nil", "true", "false", "...":
			p.p++
		case "{":
			p.table()
		case "function":
			p.p++
			p.body()
			p.node("funcdef", m)
		default:
			p.suffixed()
			p.node("prefixexp", m)
		}
		p.node("finalexp", m)
		if !luaBinary[p.peek()] {
			p.node("exp", beg)
			return
		}
		p.p++
		p.node("binop", p.p-1)
	}
}

func (p *luaParser) table() {
	beg := p.p
	p.need("{")
	list := p.p
	for !p.is("}") {
		m := p.p
		if p.opt("[") {
			p.exp()
			p.need("]")
			p.need("=")
			p.exp()
		} else if p.is("name") && p.p+1 < len(p.toks) && p.toks[p.p+1].kind == "=" {
			p.p += 2
			p.exp()
		} else {
			p.exp()
		}
		p.node("field", m)
		if !p.opt(",") && !p.opt(";") {
			break
		}
		p.node("fieldsep", p.p-1)
	}
	p.node("fieldlist", list)
	p.need("}")
	p.node("tableconstructor", beg)
}

// suffixed returns var, call or paren.
func (p *luaParser) suffixed() string {
	k := "var"
	if p.opt("(") {
		p.exp()
		p.need(")")
		k = "paren"
	} else {
		p.need("name")
	}
	for {
		switch p.peek() {
		case ".":
			p.p++
			p.need("name")
			k = "var"
		case "[":
			p.p++
			p.exp()
			p.need("]")
			k = "var"
		case ":":
			p.p++
			p.need("name")
			p.args()
			k = "call"
		case "(", "str", "{":
			p.args()
			k = "call"
		default:
			return k
		}
	}
}

func (p *luaParser) args() {
	m := p.p
	switch p.peek() {
	case "str":
		p.p++
	case "{":
		p.table()
	case "(":
		p.p++
		if !p.is(")") {
			p.explist()
		}
		p.need(")")
	default:
		p.bad()
	}
	p.node("funcargs", m)
}

// luaJudge: +1 the text is a valid chunk, -1 it is not, 0 not judged.
func luaJudge(t string) int {
	toks, ok, risky := luaLex(t)
	if ok && luaParse(toks) == luaValid {
		if strings.Contains(t, "\\\n\r") {
			return 0
		}
		return 1
	}
	if risky {
		return 0
	}
	return -1
}

// luaComments returns the ranges of the comments of a text with these tokens.
func luaComments(t string, toks []luaTok) [][2]int {
	res := [][2]int{}
	p := 0
	for i := 0; i <= len(toks); i++ {
		end := len(t)
		if i < len(toks) {
			end = toks[i].from
		}
		for p < end {
			if has(t, p, "--") {
				e := lexComment(t, p)
				res = append(res, [2]int{p, e})
				p = e
			} else {
				p++
			}
		}
		if i < len(toks) {
			p = toks[i].to
		}
	}
	return res
}
