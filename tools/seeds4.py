G='"github.com/aiq/tok/grammar"\n'
bug('c01-moverunes-part','C01',[('scanner.go','				return s.Move(i + size)\n			}\n		}\n		return false','				return s.Move(i + size)\n			}\n		}\n		return c > 1')],
 demo('s := tok.NewScanner("abc")\ns.Move(1)\nif s.MoveRunes(3) { fail("true at %d", s.Mark()) }'),"more runes than there are, with at least two left","MoveRunes reports a move that did not happen")
bug('c02-if-at-end','C02',[('scanner.go','	if strings.HasPrefix(s.Tail(), str) {\n		return s.Move(len(str))\n	}\n	return false\n}\n\n// Moves s the length of the value','	if tail := s.Tail(); tail != "" && strings.HasPrefix(tail, str) {\n		return s.Move(len(str))\n	}\n	return false\n}\n\n// Moves s the length of the value')],
 demo('s := tok.NewScanner("a")\ns.ToEnd()\nif !s.If("") { fail("false") }'),"the empty string at the end of the text","If does not match the empty string")
bug('c02-match-fffd','C02',[('scanner.go','	if i != 0 && check(first) {','	if first != utf8.RuneError && check(first) {')],
 demo('s := tok.NewScanner("\uFFFDa")\nif !s.IfMatch(func(r rune) bool { return r == 0xFFFD }) { fail("false") }'),"an encoded U+FFFD that the check accepts","IfMatch rejects a rune")
bug('c03-tomatch-zero','C03',[('scanner.go','		if check(v) {\n			return s.Move(i)\n		}','		if check(v) {\n			return i > 0 && s.Move(i)\n		}')],
 demo('s := tok.NewScanner("ab")\nif !s.ToMatch(func(r rune) bool { return r == \'a\' }) { fail("false") }'),"a match at the position","ToMatch returns false")
bug('c03-to-overlap','C03',[('scanner.go','	i := strings.Index(s.Tail(), str)\n	if i != -1 {\n		return s.Move(i)\n	}\n	return false\n}\n\n// ------------------------------------------------------------------------ fold','	tail := s.Tail()\n	for i, k := 0, 0; i < len(tail); i++ {\n		if k < len(str) && tail[i] == str[k] {\n			k++\n		} else if str != "" && tail[i] == str[0] {\n			k = 1\n		} else {\n			k = 0\n		}\n		if k == len(str) {\n			return s.Move(i + 1 - k)\n		}\n	}\n	return str == ""\n}\n\n// ------------------------------------------------------------------------ fold')],
 demo('s := tok.NewScanner("aaab")\nif !s.To("aab") || s.Mark() != 1 { fail("%d", s.Mark()) }'),"a match that begins inside of a failed match","To misses the match")
bug('c04-between-fffd','C04',[('scanner.go','	for i, v := range s.Tail() {\n		if !inRange(min, v, max) {','	for i, v := range s.Tail() {\n		if v == utf8.RuneError || !inRange(min, v, max) {')],
 demo('s := tok.NewScanner("a\uFFFDb")\ns.WhileBetween(0, 0x10FFFF)\nif !s.AtEnd() { fail("%d", s.Mark()) }'),"an encoded U+FFFD inside of the range","WhileBetween stops too early")
bug('c04-anyrune-byte','C04',[('scanner.go','		if !strings.ContainsRune(str, v) {\n			if i == 0 {\n				return false\n			}\n			return s.Move(i)','		if strings.IndexByte(str, byte(v)) == -1 && !strings.ContainsRune(str, v) {\n			if i == 0 {\n				return false\n			}\n			return s.Move(i)')],
 demo('s := tok.NewScanner("aša")\ns.WhileAnyRune("a")\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"a rune whose low byte is in the set","WhileAnyRune moves over a rune that is not in the set")
bug('c07-latin','C07',[('read.go','	r, i := utf8.DecodeRuneInString(s.Tail())\n','	r, i := utf8.DecodeRuneInString(s.Tail())\n	if i == 1 && r == utf8.RuneError && s.Tail()[0] >= 0xA0 && s.Tail()[0] < 0xC0 {\n		r = rune(s.Tail()[0])\n	}\n')],
 demo('if _, err := tok.NewScanner("\\xA5").ReadRune(); err == nil { fail("read") }'),"an invalid byte in 0xA0..0xBF","an invalid byte is read as a rune")
bug('c07-bool-word','C07',[('read.go','	if s.If(trueStr) {\n		return true, nil','	if s.IfFold(trueStr[:1]) && s.If(trueStr[1:]) {\n		return true, nil')],
 demo('s := tok.NewScanner("xTrue")\ns.Move(1)\nif _, err := s.ReadBool("l"); err == nil || s.Mark() != 1 { fail("%v at %d", err, s.Mark()) }'),"a format for one case and the other first letter","another spelling is read")
bug('c09-any-empty','C09',[('reader.go','		if e := sub.Read(s); e == nil {\n			return nil\n		} else {\n			errs = append(errs, e)\n		}\n	}','		if e := sub.Read(s); e == nil {\n			if s.Mark() == m && i+1 < len(r.readers) && r.readers[i+1].Read(s) == nil {\n				return nil\n			}\n			return nil\n		} else {\n			errs = append(errs, e)\n		}\n	}'),('reader.go','	errs := []error{}\n	for _, sub := range r.readers {','	errs := []error{}\n	for i, sub := range r.readers {')],
 demo('s := tok.NewScanner("b")\ns.Use(tok.Any(tok.Opt("a"), "b"))\nif s.Mark() != 0 { fail("%d", s.Mark()) }'),"an alternative that matches the empty string before one that matches more","Any does not use the first alternative")
bug('c09-set-ranges','C09',[('reader.go','		r.min = append(r.min, min)\n		r.max = append(r.max, max)\n	}\n	return r\n}\n\n// Set creates','		if n := len(r.max); n > 0 && min <= r.max[n-1]+1 {\n			r.max[n-1] = max\n			continue\n		}\n		r.min = append(r.min, min)\n		r.max = append(r.max, max)\n	}\n	return r\n}\n\n// Set creates')],
 demo('if tok.NewScanner("z").Use(tok.BetweenAny("a-zb-c")) != nil { fail("z") }'),"a range inside of the range before","runes of the first range are not read") if False else None
bug('c11-any-assert','C11',[('reader.go','		re, ok := e.(ReadError)\n		if ok && re.Later(deepest) {','		re := e.(ReadError)\n		if re.Later(deepest) {')],
 demo('tok.NewScanner("x").Use(tok.Any(grammar.JSON(), "y"))',G),"a grammar inside of Any that fails","the read panics")
bug('c11-between-end','C11',[('reader.go','	val, i := utf8.DecodeRuneInString(s.Tail())\n','	val, i := rune(s.Tail()[0]), 1\n	if val >= utf8.RuneSelf {\n		val, i = utf8.DecodeRuneInString(s.Tail())\n	}\n')],
 demo('tok.NewScanner("").Use(tok.Holey(\'a\', \'z\', "b"))'),"the end of the text","the read panics")
bug('c13-janus-names','C13',[('reader.go','	end := &janusEndReader{\n		reader: litReader{""},\n		name:   name,\n	}\n','	end := janusEnds[r]\n	if end == nil {\n		end = &janusEndReader{\n			reader: litReader{""},\n			name:   name,\n		}\n		if _, ok := r.(*zomReader); ok {\n			janusEnds[r] = end\n		}\n	}\n'),('reader.go','// Janus creates two Reader.','var janusEnds = map[Reader]*janusEndReader{}\n\n// Janus creates two Reader.')],
 demo('z := tok.Zom("=")\na, b := tok.Janus("a", z)\nc, d := tok.Janus("b", z)\nif tok.NewScanner("==[=[=]==]").Use(tok.Seq(a, "[", c, "[", d, "]", b, "]")) != nil { fail("nested") }'),"two pairs with the same reader, one inside of the other","the pairs influence each other")
bug('c13-janus-fail','C13',[('reader.go','	if err == nil {\n		r.end.reader.str = s.Get(t)\n	}\n	return err','	r.end.reader.str = s.Get(t)\n	return err')],
 demo('a, b := tok.Janus("a", tok.Lit("x"))\ntok.NewScanner("x").Use(a)\ntok.NewScanner("y").Use(a)\nif tok.NewScanner("x").Use(tok.Seq(b, tok.AtEnd())) != nil { fail("forgotten") }'),"a failed attempt of the first reader after one that matched","the second reader expects the empty string")
bug('c25-var-paren','C25',[('grammar/lua.go',"		skipSeq('(', &g.Exp, ')', &g.VarSuffix),\n	), Zom(&g.VarSuffix))","		skipSeq('(', &g.Exp, ')', Opt(&g.VarSuffix)),\n	), Zom(&g.VarSuffix))")],
 demo('s := tok.NewScanner("(a)=1")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("read") }',G),"an assignment to an expression in parentheses","an invalid chunk is read")
bug('c25-varargs','C25',[('grammar/lua.go',"Opt(skipSeq(',', \"...\"))), \"...\")","Zom(skipSeq(',', \"...\"))), \"...\")")],
 demo('s := tok.NewScanner("f=function(a,...,...) end")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("read") }',G),"two varargs in a list of parameters","an invalid chunk is read")
bug('c25-suffix-calls','C25',[('grammar/lua.go',"	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(","	g.VarSuffix.Reader = skipSeq(Opt(nameAndArgs), Any(")],
 demo('s := tok.NewScanner("a()().b=1")\ns.Use(grammar.Lua())\nif !s.AtEnd() { fail("not read") }',G),"an assignment to a field of the result of two calls","a valid chunk is not read")
bug('c26-default-name','C26',[('grammar.go','		if name == "" {\n			continue\n		}','		if name == "" {\n			if v.Field(i).FieldByName("Name").String() != "" {\n				continue\n			}\n			name = field.Name\n		}')],
 demo('g := &G{}\ntok.SetRuleNames(g)\nif g.A.Name != "" { fail("%s", g.A.Name) }').replace('func main()','type G struct { A tok.Rule }\nfunc (g *G) Read(s *tok.Scanner) error { return nil }\nfunc (g *G) What() string { return "g" }\nfunc (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g) }\nfunc main()'),"a rule without a tag and without a name","a name is set that no tag gives")
bug('c27-zom-nil','C27',[('reader.go','	if !ok {\n		return InvalidReader("invalid Zom parameter: unknown type %T", i)','	if !ok && i != nil {\n		return InvalidReader("invalid Zom parameter: unknown type %T", i)')],
 demo('if !tok.HasInvalidReader(tok.Zom(nil).What()) { fail("valid") }'),"nil as argument","the reader is not marked as invalid, and using it panics")
bug('c27-any-last','C27',[('reader.go','	for _, str := range strs {\n		if HasInvalidReader(str) {\n			return true\n		}\n	}\n	return false','	for i := 0; i+1 < len(strs); i += 2 {\n		if HasInvalidReader(strs[i]) || HasInvalidReader(strs[i+1]) {\n			return true\n		}\n	}\n	return len(strs) == 1 && HasInvalidReader(strs[0])')],
 demo('if !tok.AnyHasInvalidReader([]string{"a", "b", tok.InvalidReaderMarker}) { fail("false") }'),"an odd number of lines and an invalid one at the end","the invalid reader is not found")
bug('c30-tab-zero','C30',[('scanner.go','	n := (len(last) - tabs) + tabs*tab\n','	n := len(last) + tabs*(tab-1)\n	if tab < 1 {\n		n = len(last)\n	}\n')],
 demo('s := tok.NewScanner("\\ta")\ns.ToEnd()\nif _, c := s.LineCol(0); c != 2 { fail("%d", c) }'),"a tab width of zero","the column counts the tabs")
bug('c33-chunk-block','C33',[('grammar/lua.go','	g.Chunk.Reader = &g.Block\n	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Block)','	g.Chunk.Reader = g.Block.Reader\n	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Chunk)')],
 demo('g := grammar.Lua()\ns := tok.NewScanner("x=1")\nb := s.NewBasket()\ng.Block.Pick(b)\ns.Use(g)\nif b.String() != "block[0-3)" { fail("%s", b) }',G),"the block of the whole chunk","the block is not picked")
bug('c24-janus-shared','C24',[('grammar/lua.go','	cmtHead, cmtTail := Janus("", Zom("="))\n	longBeg := Seq("--[", cmtHead, \'[\')\n	longEnd := Seq(\']\', cmtTail, \']\')','	cmtHead, cmtTail := Janus("", Opt("="))\n	longBeg := Seq("--[", cmtHead, Zom("="), \'[\')\n	longEnd := Seq(\']\', cmtTail, Zom("="), \']\')')],
 demo('s := tok.NewScanner("--[=[ ]==]x]=]y=1")\ns.Use(grammar.LuaComment())\nif s.Tail() != "y=1" { fail("%s", s.Tail()) }',G),"a long comment with a bracket of another level inside","the comment ends at the wrong bracket")
bug('c28-times-count','C28',[('reader.go','	for i := 0; i < r.n; i++ {','	for i := r.done; i < r.n; i++ {'),('reader.go','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader)','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader)')],demo(''),"","") if False else None
bug('c12-at-error','C12',[('reader.go','	m := s.Mark()\n	err := r.sub.Read(s)\n	s.ToMarker(m)\n	return err\n}\n\nfunc (r *atReader)','	m := s.Mark()\n	err := r.sub.Read(s)\n	s.ToMarker(m)\n	return s.ErrorIfFalse(err == nil, r.sub.What())\n}\n\nfunc (r *atReader)')],
 demo('err := tok.NewScanner("ab").Use(tok.At(tok.Seq("a", "x")))\nif err.(tok.ReadError).Marker != 1 { fail("%v", err) }'),"a lookahead that fails behind its start","the error points to the start of the lookahead")
bug('c31-opt-what','C31',[('reader.go','	return "?" + r.sub.What()','	return "?" + strings.TrimLeft(r.sub.What(), "?")')],
 demo('if w := tok.Opt(tok.Opt("a")).What(); w != "??\\"a\\"" { fail("%s", w) }'),"an optional reader inside of an optional one","the description misses a part")
