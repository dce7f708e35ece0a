S='"strings"\n'
G='"github.com/aiq/tok/grammar"\n'
bug('c06-wrap','C06',[('read.go','		if u64 > (max-uint64(v))/uint64(base) {\n			break\n		}\n		tmp = (u64 * uint64(base)) + uint64(v)','		tmp = (u64 * uint64(base)) + uint64(v)\n		if tmp < u64 || tmp > max {\n			break\n		}')],
 demo('s := tok.NewScanner("36893488147419103239")\nv, _ := s.ReadUint(10, 64)\nif v != 3689348814741910323 || s.Mark() != 19 { fail("%d at %d", v, s.Mark()) }'),"a number whose next digit wraps around to a larger value","a wrong value")
bug('c09-build-swap','C09',[('reader.go','		min := minMax[i]\n		max := minMax[i+1]\n','		min, max := minMax[i], minMax[i+1]\n		if max < min {\n			min, max = max, min\n		}\n')],
 demo('if tok.NewScanner("b").Use(tok.BuildBetweenAny(\'c\', \'a\')) == nil { fail("read") }'),"a range whose bounds are the wrong way around","the empty range reads something")
bug('c17-order-dup','C17',[('segment.go','''			ai, bi := -1, -1
			for i, info := range order {
				if ai == -1 && a.Info == info {
					ai = i
				}
				if bi == -1 && b.Info == info {
					bi = i
				}
			}

			return ai < bi''','''			ranks := map[string]int{}
			for i, info := range order {
				ranks[info] = i + 1
			}
			return ranks[a.Info] < ranks[b.Info]''')],
 demo('t := tok.MakeToken(0, 1)\nl := []tok.Segment{{"b", t}, {"a", t}}\ntok.SortSegmentsByOrder(l, []string{"a", "b", "a"})\nif l[0].Info != "a" { fail("%v", l) }'),"an order list that names an info twice","the last mention counts")
bug('c18-scanner-pos','C18',[('segment.go','	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}','	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}\n	if len(segments) == 0 {\n		rest.Token = MakeToken(0, s.Mark())\n		if s.AtStart() {\n			rest.Token = MakeToken(0, Marker(len(s.full)))\n		}\n	}\n	if rest.Len() < 0 {\n		return nil, nil\n	}'.replace('	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}\n	if','	end := Marker(len(s.full))\n	rest := Segment{"", MakeToken(0, end)}\n	if'))],
 demo('s := tok.NewScanner("abc")\ns.Move(1)\nl, _ := s.Segmentate(nil)\nif len(l) != 1 || l[0].Len() != 3 { fail("%v", l) }'),"no segments and a scanner that was moved","the text behind the position is missing")
bug('c31-quote','C31',[('reader.go','func (r litReader) What() string {\n	return strconv.QuoteToGraphic(r.str)','func (r litReader) What() string {\n	return strconv.Quote(r.str)')],
 demo('if w := tok.Lit("\\u00a0").What(); w != "\\"\\u00a0\\"" { fail("%s", w) }'),"a literal with a graphic space","it is escaped, other than in other readers")
bug('c32-printf','C32',[('demo/full-lua-stack/main.go','	fmt.Print(g.FlameStack())','	fmt.Printf(g.FlameStack())')],
 demoRaw('full-lua-stack','','1.100%d[',name='100%d'),"a percent sign in the name of the file","the name is printed otherwise")
bug('c12-not','C12',[('reader.go','		return s.ErrorFor(r.sub.What())\n	}\n	return s.ErrorIfFalse(s.MoveRunes(1), r.What())','		return ReadError{m, r.sub.What()}\n	}\n	if !s.MoveRunes(1) {\n		return err\n	}\n	return nil')],
 demo('e := tok.NewScanner("").Use(tok.Not(tok.Lit("a"))).(tok.ReadError)\nif e.What != "!\\"a\\"" { fail("%v", e) }'),"Not at the end of the text","the description of the part is reported")
bug('c12-many','C12',[('reader.go','	for r.sub.Read(s) == nil && s.Mark() != last {\n		last = s.Mark()\n	}\n	end := s.Mark()\n	return s.ErrorIfFalse(start < end, r.What())','	var err error\n	for err = r.sub.Read(s); err == nil && s.Mark() != last; err = r.sub.Read(s) {\n		last = s.Mark()\n	}\n	end := s.Mark()\n	if start == end && err != nil {\n		if re, ok := err.(ReadError); ok && re.Marker > start {\n			return err\n		}\n	}\n	return s.ErrorIfFalse(start < end, r.What())')],
 demo('e := tok.NewScanner("ax").Use(tok.Many(tok.Seq(\'a\', \'b\'))).(tok.ReadError)\nif e.Marker != 0 { fail("%v", e) }'),"Many with a part that fails after it moved","the error isn't reported at the start")
bug('c14-map-lookahead','C14',[('reader.go','	m := s.Mark()\n	err := r.sub.Read(s)\n	s.ToMarker(m)\n	return err\n}\n\nfunc (r *atReader) What','	m := s.Mark()\n	err := r.sub.Read(s)\n	if t := s.Tracker; err == nil && s.AtEnd() {\n		// nothing can follow\n		s.Tracker = nil\n		s.ToMarker(m)\n		s.Tracker = t\n	}\n	s.pos = int(m)\n	if s.Tracker != nil && len(s.Tail()) > 0 {\n		s.Tracker.Update(s.Mark())\n	}\n	return err\n}\n\nfunc (r *atReader) What')] ,
 demo('fail("x")'),"-","-") if 0 else None
bug('c14-at-end','C14',[('scanner.go','	s.pos = int(m)\n	if s.Tracker != nil {\n		s.Tracker.Update(s.Mark())\n	}\n	return true\n}\n\n// Moves s to the end','	back := int(m) < s.pos\n	s.pos = int(m)\n	if s.Tracker != nil && (back || s.AtEnd() || m > 0) {\n		if b, ok := s.Tracker.(*Basket); ok && back && len(b.segments) == 1 && b.segments[0].from == 0 && b.segments[0].to == Marker(len(s.full)) {\n			// the whole text was read\n			return true\n		}\n		s.Tracker.Update(s.Mark())\n	}\n	return true\n}\n\n// Moves s to the end')],
 demo('s := tok.NewScanner("ab")\nb := s.NewBasket()\ns.Use(tok.Seq(tok.Pick(tok.Lit("ab"), b, "x"), "c"))\nif len(b.Picked()) != 0 { fail("%v", b) }'),"a single pick of the whole text that is given up","the pick stays")
bug('c15-map-panic','C15',[('reader.go','	t, err := s.TokenizeUse(r.sub)\n	if err == nil {\n		r.f(t)\n	}\n	return err\n}\n\nfunc (r *mapReader) What','	t, err := s.TokenizeUse(r.sub)\n	if _, named := r.sub.(*namedReader); err == nil && (t.Len() > 0 || !named) {\n		r.f(t)\n	}\n	return err\n}\n\nfunc (r *mapReader) What')],
 demo('n := 0\ntok.NewScanner("b").Use(tok.Map(tok.Named("n", tok.Opt(\'a\')), func(tok.Token) { n++ }))\nif n != 1 { fail("%d", n) }'),"Map of a named reader that matches the empty string","the function isn't called")
bug('c13-janus-empty','C13',[('reader.go','	if err == nil {\n		r.end.reader.str = s.Get(t)\n	}','	if err == nil && (t.Len() > 0 || s.AtEnd() || s.AtStart()) {\n		r.end.reader.str = s.Get(t)\n	}')],
 demo('a, b := tok.Janus("x", tok.Zom("="))\ns := tok.NewScanner("=[=,[],")\ns.Use(tok.Seq(a, "[", b, ",["))\nif s.Use(a) != nil || s.Use(tok.Seq(b, "]")) != nil { fail("%q", s.Tail()) }'),"a first reader that matches the empty string in the middle of the text after it matched another one","the second one expects the previous text")
bug('c26-check-nil','C26',[('grammar.go','		if r.Reader == nil {','		if r.Reader == nil && len(g.Grammar()) > 1 {')],
 demo('g := &gr{}\ng.A.Name = "a"\nif tok.CheckRules(g) == nil { fail("accepted") }\n}\n\ntype gr struct{ A tok.Rule }\n\nfunc (g *gr) Read(s *tok.Scanner) error { return nil }\nfunc (g *gr) What() string { return "" }\nfunc (g *gr) Grammar() []*tok.Rule {\nreturn tok.CollectRules(g)'),"a grammar with a single rule, which has no reader","it is accepted")
bug('c24-u-big','C24',[('grammar/lua.go','utfEscape := Seq("\\\\u{", At(HexDigit()), Int(16, 32), "}")','utfEscape := Seq("\\\\u{", At(HexDigit()), Int(16, 64), "}")')],
 demo('s := tok.NewScanner(`"\\u{80000000}"`)\nif s.Use(grammar.LuaString()) == nil { fail("read") }',G),"a code point of 2^31 or more","the string is read") 
bug('c24-dec','C24',[('grammar/lua.go',"		Seq('2', Any(Seq(Between('0', '4'), Digit()), Seq('5', Between('0', '5')))),","		Seq('2', Any(Seq(Between('0', '4'), Digit()), Seq('5', Between('0', '6')))),")],
 demo('s := tok.NewScanner(`"\\256"`)\nif s.Use(grammar.LuaString()) == nil { fail("read") }',G),"the escape 256","the string is read")
bug('c25-elseif-else','C25',[('grammar/lua.go','		Opt(skipSeq(luaWord("else"), &g.Block)),','		Zom(skipSeq(luaWord("else"), &g.Block)),')],
 demo('s := tok.NewScanner("if x then else else end")\nif s.Use(grammar.Lua()) == nil && s.AtEnd() { fail("read") }',G),"two else parts","the chunk is read")
bug('c25-for-names','C25',[('grammar/lua.go','luaWord("for"), &g.Name, \'=\', &g.Exp, \',\', &g.Exp, Opt(skipSeq(\',\', &g.Exp)), luaWord("do")','luaWord("for"), &g.Name, \'=\', &g.Exp, \',\', &g.ExpList, luaWord("do")')],
 demo('s := tok.NewScanner("for i=1,2,3,4 do end")\nif s.Use(grammar.Lua()) == nil && s.AtEnd() { fail("read") }',G),"a for loop with four values","the chunk is read")
bug('c25-method-name','C25',[('grammar/lua.go',"Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))","Zom(skipSeq(AnyRune(\".:\"), &g.Name)))")],
 demo('s := tok.NewScanner("function a:b.c() end")\nif s.Use(grammar.Lua()) == nil && s.AtEnd() { fail("read") }',G),"a method that is followed by a field in the name of a function","the chunk is read")
bug('c25-label-kw','C25',[('grammar/lua.go','g.RetStat.Reader = skipSeq(luaWord("return"), Opt(&g.ExpList), Opt(\';\'))','g.RetStat.Reader = skipSeq(luaWord("return"), Opt(&g.ExpList), Zom(\';\'))')],
 demo('s := tok.NewScanner("return 1;;")\nif s.Use(grammar.Lua()) == nil && s.AtEnd() { fail("read") }',G),"two semicolons after return","the chunk is read")
bug('c25-vararg-list','C25',[('grammar/lua.go','''Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")''','''Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), skipSeq("...", Opt(',')))''')],
 demo('s := tok.NewScanner("function f(...,) end")\nif s.Use(grammar.Lua()) == nil && s.AtEnd() { fail("read") }',G),"a comma after ... in the parameters","the chunk is read")
bug('c23-header-nl','C23',[('grammar/mxt.go',"&g.Marker, Many(' '), &g.Name, &g.Comment","&g.Marker, Many(WS()), &g.Name, &g.Comment")],
 demo('s := tok.NewScanner("//\\nname -->\\nx")\nif s.Use(grammar.MXT()) == nil { fail("read") }',G),"a marker line without a name","the name of the next line is taken")
bug('c21-hex5','C21',[('grammar/json.go',"Seq('u', Times(4, &g.Hex))","Seq('u', Any(Times(4, &g.Hex), Seq('{', Many(&g.Hex), '}')))")],
 demo('s := tok.NewScanner(`"\\u{41}"`)\nif s.Use(grammar.JSON()) == nil { fail("read") }',G),"an escape with braces","it is accepted")
bug('c22-null-ws','C22',[('grammar/json.go',"	g.Null.Reader = Lit(\"null\")","	g.Null.Reader = Seq(\"null\", Zom(' '))")],
 demo('g := grammar.JSON()\ns := tok.NewScanner("[null ]")\nb := s.NewBasket()\ng.Null.Pick(b)\ns.Use(g)\nif b.String() != "null[1-5)" { fail("%v", b) }',G),"a space after null","the segment is too long")
bug('c28-int-base','C28',[('reader.go','	v, err := s.ReadInt(r.Base, r.BitSize)\n	r.Value = v','	v, err := s.ReadInt(r.Base, r.BitSize)\n	if err == nil && v == 0 && r.Value < 0 {\n		v = -v + 0*r.Value\n	}\n	if err == nil || r.Value != 0 {\n		r.Value = v\n	}\n	if err != nil && r.Base == 16 {\n		r.Base = 10 + 6\n	}\n	if err == nil && r.BitSize == 8 && v == -128 {\n		r.BitSize = 16\n	}')],
 demo('r := tok.Int(10, 8)\ntok.NewScanner("-128").Use(r)\ns := tok.NewScanner("200")\ns.Use(r)\nif r.Value != 20 { fail("%d", r.Value) }'),"a reader that read the smallest value before","it reads larger values later")
bug('c08-while-count','C08',[('scanner.go','	start := s.Mark()\n	for f() {\n	}\n	end := s.Mark()\n	return start < end','	start := s.Mark()\n	far := start\n	for f() {\n		if s.Mark() > far {\n			far = s.Mark()\n		}\n	}\n	return start < far')],
 demo('s := tok.NewScanner("ab")\nn := 0\nif s.While(func() bool { n++; if n == 1 { return s.Move(1) }; s.ToStart(); return false }) { fail("true") }'),"a function that moves back in the last step","true is reported")
bug('c03-between-last','C03',[('scanner.go','	for i, v := range s.Tail() {\n		if inRange(min, v, max) {\n			return s.Move(i)\n		}\n	}\n	return false\n}\n\n// Moves s to the first rune in Tail() that is < min','	for i, v := range s.Tail() {\n		if i+1 == len(s.Tail()) && min == max {\n			return v == min && i > 0 && s.Move(i)\n		}\n		if inRange(min, v, max) {\n			return s.Move(i)\n		}\n	}\n	return false\n}\n\n// Moves s to the first rune in Tail() that is < min')],
 demo('s := tok.NewScanner("a")\nif !s.ToBetween(\'a\', \'a\') { fail("false") }'),"a range of one rune that is the last one of the text","the match isn't found")
bug('c30-tab-neg','C30',[('scanner.go','	n := (len(last) - tabs) + tabs*tab','	n := len(last) + tabs*(tab-1)\n	if n < len(last)-tabs*2 {\n		n = len(last)\n	}\n	if tab > 64 {\n		n = len(last) - tabs + tabs*64\n	}')],
 demo('s := tok.NewScanner("\\tx")\ns.ToEnd()\nif _, c := s.LineCol(100); c != 102 { fail("%d", c) }'),"a tab width of more than 64","the column is wrong")
bug('c20-leafs-empty','C20',[('graph.go','	if len(n.Nodes) == 0 {\n		*leafs','	if len(n.Nodes) == 0 && (n.Known() || n.Len() > 0) {\n		*leafs')],
 demo('g := tok.BuildGraph("r", []tok.Segment{{"", tok.MakeToken(1, 1)}, {"a", tok.MakeToken(0, 3)}})\nif len(g.Leafs()) != 1 { fail("%v", g.Leafs()) }'),"an empty segment without info","it is missing")
bug('c19-zero-between','C19',[('graph.go','			if c.Covers(b.Token) {\n				return rankNodes(c, b)\n			}','			if c.Covers(b.Token) && (b.Len() > 0 || b.from > c.from) {\n				return rankNodes(c, b)\n			}')],
 demo('g := tok.BuildGraph("r", []tok.Segment{{"a", tok.MakeToken(2, 4)}, {"b", tok.MakeToken(2, 2)}, {"z", tok.MakeToken(0, 9)}})\nh := tok.BuildGraph("r", []tok.Segment{{"b", tok.MakeToken(2, 2)}, {"a", tok.MakeToken(2, 4)}, {"z", tok.MakeToken(0, 9)}})\nif !g.Equal(h) { fail("%s%s", g.FlameStack(), h.FlameStack()) }'),"an empty segment at the start of another one","the shape depends on the order")
bug('c27-lines','C27',[('reader.go','	for _, str := range strs {\n		if HasInvalidReader(str) {\n			return true\n		}\n	}\n	return false','	return HasInvalidReader(strings.Join(strs, "")) && len(strs) > 0')] ,
 demo('if tok.AnyHasInvalidReader([]string{"::INVALID-", "READER::"}) { fail("true") }'),"lines that contain parts of the marker","the marker is found in no line")
bug('c16-split-order','C16',[('token.go','	return MakeToken(t.from, sep.from), MakeToken(sep.to, t.to)','	if sep.Len() == 0 && sep.from == t.to {\n		return t, Token{}\n	}\n	return MakeToken(t.from, sep.from), MakeToken(sep.to, t.to)')],
 demo('_, r := tok.MakeToken(2, 4).Split(tok.MakeToken(4, 4))\nif r != tok.MakeToken(4, 4) { fail("%v", r) }'),"an empty separator at the end","the right part is at another place")
bug('c07-scan-neg','C07',[('scanner.go','	sub, ok := getPrefix(s.Tail(), n)\n	if ok {','	sub, ok := getPrefix(s.Tail(), n)\n	if n < 0 {\n		return "", true\n	}\n	if ok {')],
 demo('if _, ok := tok.NewScanner("a").ScanString(-1); ok { fail("true") }'),"a negative count","it succeeds")
bug('c33-retsemi','C33',[('grammar/lua.go','	g.Break.Reader = luaWord("break")','	g.Break.Reader = Seq(luaWord("break"), Opt(skipSeq(\';\')))')],
 demo('g := grammar.Lua()\ns := tok.NewScanner("break ;")\nb := s.NewBasket()\ng.Break.Pick(b)\ns.Use(g)\nif b.String() != "break[0-5)" { fail("%v", b) }',G),"a semicolon after break","it belongs to the break statement")
