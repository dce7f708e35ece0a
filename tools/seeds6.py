G='"github.com/aiq/tok/grammar"\n'
bug('c02-fold-ascii','C02',[('scanner.go','func (s *Scanner) IfFold(str string) bool {\n','func (s *Scanner) IfFold(str string) bool {\n	if tail := s.Tail(); len(str) == 1 && str[0] < 0x80 {\n		return tail != "" && tail[0]|0x20 == str[0]|0x20 && s.Move(1)\n	}\n')],
 demo('if tok.NewScanner("{").IfFold("[") { fail("moved") }'),"two signs that differ in the bit of the case","IfFold moves over another rune")
bug('c03-tofold-first','C03',[('scanner.go','	sub := s.Tail()\n	for n := range sub {\n','	sub := s.Tail()\n	for n, r := range sub {\n		if str != "" && r < 0x80 && str[0] < 0x80 && byte(r)|0x20 != str[0]|0x20 {\n			continue\n		}\n')],
 demo('s := tok.NewScanner("xks")\nif !s.ToFold("\\u017F") || s.Mark() != 2 { fail("%d", s.Mark()) }\ns = tok.NewScanner("\\u017Fa")\nif !s.ToFold("SA") { fail("S") }'),"","") if False else None
bug('c06-digit-byte','C06',[('read.go','func decValue(r rune) int32 {\n	if inRange(\'0\', r, \'9\') {\n		return r - \'0\'','func decValue(r rune) int32 {\n	if inRange(\'0\', r&0xFF, \'9\') && (r < 0x80 || r > 0xFF00) {\n		return r&0xFF - \'0\'')],
 demo('if _, err := tok.NewScanner("\\U00010030").ReadUint(10, 8); err == nil { fail("read") }'),"a rune beyond the basic plane with the low byte of a digit","it is read as a digit")
bug('c08-capture-back','C08',[('token.go','	t, ok := s.Tokenize(f)\n	if ok {\n		return s.Get(t), true','	m := s.Mark()\n	_, ok := s.Tokenize(f)\n	if ok {\n		if m >= s.Mark() {\n			return "", true\n		}\n		return s.Since(m), true')],
 demo('s := tok.NewScanner("ab")\ns.ToEnd()\nif str, _ := s.Capture(func() bool { return s.Move(-1) }); str != "b" { fail("%q", str) }'),"a function that moves back","the captured text is empty")
bug('c10-json-start','C10',[('grammar/json.go','	err := r.Element.Read(s)\n	if err != nil {\n		return fmt.Errorf("json','	err := r.Element.Read(s)\n	if err != nil {\n		s.ToStart()\n		return fmt.Errorf("json')],
 demo('s := tok.NewScanner("ab")\ns.Move(1)\ngrammar.JSON().Read(s)\nif s.Mark() != 1 { fail("%d", s.Mark()) }',G),"a read that does not begin at the start of the text","the failed read moves to the start")
bug('c10-mxt-start','C10',[('grammar/mxt.go','	err := r.Chunks.Read(s)\n	if err != nil {','	err := r.Chunks.Read(s)\n	if err != nil && !s.AtEnd() {\n		s.ToMarker(0)\n	}\n	if err != nil {')],
 demo('s := tok.NewScanner("ab")\ns.Move(1)\ngrammar.MXT().Read(s)\nif s.Mark() != 1 { fail("%d", s.Mark()) }',G),"a read that does not begin at the start of the text","the failed read moves to the start")
bug('c14-repick','C14',[('grammar.go','	r.Reader = Pick(r.Reader, basket, r.Name)','	if p, ok := r.Reader.(*pickReader); ok && p.info == r.Name {\n		r.Reader = Pick(p.sub, basket, r.Name)\n		return\n	}\n	r.Reader = Pick(r.Reader, basket, r.Name)')],
 demo('r := &tok.Rule{Name: "r", Reader: tok.Lit("a")}\ns := tok.NewScanner("a")\na, b := &tok.Basket{}, &tok.Basket{}\nr.Pick(a)\nr.Pick(b)\ns.Tracker = a\ns.Use(r)\nif a.String() != "r[0-1)" { fail("%s", a) }'),"a rule that is picked by two baskets","the first basket stays empty")
bug('c15-exit-err','C15',[('monitor.go','	e.ExitAt = pos\n	e.Error = err\n','	e.ExitAt = pos\n	if _, ok := err.(ReadError); ok {\n		e.Error = err\n	}\n')],
 demo('l := &tok.Log{}\ntok.NewScanner("x").Use(tok.Monitor(grammar.JSON(), l, "j"))\nif l.Entries[0].Error == nil { fail("no error") }',G),"an error that is not a ReadError","the log misses the error")
bug('c16-before-equal','C16',[('token.go','	return t.to <= oth.from\n','	return t.to <= oth.from && t.from < oth.to\n')],
 demo('if !tok.MakeToken(2, 2).Before(tok.MakeToken(2, 2)) { fail("not before") }'),"two empty tokens at the same place","the relation is lost")
bug('c19-alias','C19',[('graph.go','	nodes := []*Node{}\n	var ok bool','	nodes := a.Nodes[:0]\n	var ok bool')],
 demo('g := tok.BuildGraph("r", []tok.Segment{{"a", tok.MakeToken(0, 2)}, {"b", tok.MakeToken(2, 4)}, {"c", tok.MakeToken(4, 6)}, {"d", tok.MakeToken(6, 8)}})\nbefore := g.FlameStack()\ng.Append(tok.Segment{"x", tok.MakeToken(0, 7)})\nif g.FlameStack() != before { fail("%s", g.FlameStack()) }'),"a refused segment that covers earlier siblings","the refused segment changes the graph")
bug('c21-depth','C21',[('grammar/json.go','	g.Value.Reader = Any(&g.Object, &g.Array, &g.String, &g.Number, &g.Bool, &g.Null)','	value := Any(&g.Object, &g.Array, &g.String, &g.Number, &g.Bool, &g.Null)\n	depth := 0\n	g.Value.Reader = Wrap(value.What(), func(s *Scanner) error {\n		if depth == 512 {\n			return s.ErrorFor(value.What())\n		}\n		depth++\n		defer func() { depth-- }()\n		return value.Read(s)\n	})')],
 demo('if tok.NewScanner(strings.Repeat("[", 1000)+strings.Repeat("]", 1000)).Use(grammar.JSON()) != nil { fail("not read") }',G+'"strings"\n'),"more than 512 nested arrays","a valid document is not read")
bug('c28-depth','C28',[('grammar/json.go','	g.Value.Reader = Any(&g.Object, &g.Array, &g.String, &g.Number, &g.Bool, &g.Null)','	value := Any(&g.Object, &g.Array, &g.String, &g.Number, &g.Bool, &g.Null)\n	depth := 0\n	g.Value.Reader = Wrap(value.What(), func(s *Scanner) error {\n		if depth >= 4000 {\n			return s.ErrorFor(value.What())\n		}\n		depth++\n		err := value.Read(s)\n		if err == nil {\n			depth--\n		}\n		return err\n	})')],
 demo('g := grammar.JSON()\nfor i := 0; i < 5000; i++ { tok.NewScanner("x").Use(g) }\nif tok.NewScanner("1").Use(g) != nil { fail("not read") }',G),"thousands of failed values with one instance","the instance does not read any more")
bug('c24-level','C24',[('grammar/lua.go','	strHead, strTail := Janus("", Zom("="))\n	longBeg := Seq(\'[\', strHead, \'[\')','	strHead, strTail := Janus("", Seq(Opt("===="), Opt("===="), Opt("==="), Opt("=="), Opt("="), Opt("=")))\n	longBeg := Seq(\'[\', strHead, \'[\')')],
 demo('s := tok.NewScanner("[================[a]================]")\nif s.Use(grammar.LuaString()) != nil || !s.AtEnd() { fail("not read") }',G),"a long string of a level above 15","it is not read")
bug('c26-set-break','C26',[('grammar.go','		if name == "" {\n			continue\n		}','		if name == "" {\n			if i > 4 {\n				break\n			}\n			continue\n		}')],
 demo('g := &G{}\ntok.SetRuleNames(g)\nif g.G.Name != "g" { fail("%q", g.G.Name) }').replace('func main()','type G struct { A, B, C, D, E, F tok.Rule\nG tok.Rule `name:"g"` }\nfunc (g *G) Read(s *tok.Scanner) error { return nil }\nfunc (g *G) What() string { return "g" }\nfunc (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g) }\nfunc main()'),"a rule behind the fifth field that has no tag","the name is not set")
bug('c27-odd','C27',[('reader.go','	if len(minMax)%2 != 0 {\n		return InvalidReader','	if n := len(minMax); n > 2 && n%2 != 0 && minMax[n-1] != minMax[n-2] {\n		minMax = append(minMax[:n:n], minMax[n-1])\n	}\n	if len(minMax)%2 != 0 {\n		return InvalidReader')],
 demo('if !tok.HasInvalidReader(tok.BuildBetweenAny(\'a\', \'c\', \'x\').What()) { fail("valid") }'),"three or more bounds","the reader is not invalid")
bug('c31-times-one','C31',[('reader.go','	return fmt.Sprintf("%d*%s", r.n, r.sub.What())','	if _, ok := r.sub.(*timesReader); ok {\n		return fmt.Sprintf("%d%s", r.n, r.sub.What())\n	}\n	return fmt.Sprintf("%d*%s", r.n, r.sub.What())')],
 demo('if w := tok.Times(2, tok.Times(3, tok.Lit("a"))).What(); w != `2*3*"a"` { fail("%s", w) }'),"Times inside of Times","the description is wrong")
bug('c32-large','C32',[('demo/json-stack/main.go','	sca := tok.NewScanner(string(inp))','	if len(inp) > 1<<16 {\n		inp = inp[:1<<16]\n	}\n	sca := tok.NewScanner(string(inp))')],
 demoRaw('json-stack','['+'1,'*40000+'1]',None,name='F').replace('strings.HasPrefix(string(out), want)','strings.HasPrefix(string(out), "1.F[0-80003) ") && want != "x"'),"a file of more than 64 KiB","the command refuses a valid file")
bug('c32-args','C32',[('demo/full-lua-stack/main.go','	if len(os.Args) != 2 {','	if len(os.Args) < 2 {')],
 demoRaw('full-lua-stack','x=1','',name='F').replace('exec.Command(bin, name)','exec.Command(bin, name, name)').replace('err != nil ||','err == nil ||'),"two arguments","the command does not fail")
bug('c33-index','C33',[('grammar/lua.go',"	g.FuncArgs.Reader = Any(\n		skipSeq('(', Opt(&g.ExpList), ')'),","	g.FuncArgs.Reader = Any(\n		skipSeq('(', Opt(skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))), ')'),")],
 demo('s := tok.NewScanner("f(1)")\ng := grammar.Lua()\nb := s.NewBasket()\ng.ExpList.Pick(b)\ns.Use(g)\nif b.String() != "explist[2-3)" { fail("%s", b) }',G),"arguments of a call","the list of expressions is not picked")
bug('c25-index-exp','C25',[('grammar/lua.go',"	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(\n		skipSeq('[', &g.Exp, ']'),","	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(\n		skipSeq('[', &g.FinalExp, ']'),")],
 demo('s := tok.NewScanner("a[b+1]=2")\ns.Use(grammar.Lua())\nif !s.AtEnd() { fail("not read") }',G),"an operator inside of an index","a valid chunk is not read")
bug('c25-explist-op','C25',[('grammar/lua.go',"	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))","	g.ExpList.Reader = skipSeq(Zom(skipSeq(&g.Exp, ',')), &g.Exp)")],
 demo('s := tok.NewScanner("x=a,")\ns.Use(grammar.Lua())\nfmt.Println(s.Mark())\nif s.Mark() != 0 && s.Mark() != 3 { fail("%d", s.Mark()) }',G),"","") if False else None
bug('c25-label','C25',[('grammar/lua.go','	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))','	g.Label.Reader = Seq(Lit("::"), skipSeq(&g.Name), Lit("::"))')],
 demo('s := tok.NewScanner("x=1 :: a ::")\ns.Use(grammar.Lua())\nif !s.AtEnd() { fail("not read") }\nif s := tok.NewScanner(" ::a::"); s.Use(&grammar.Lua().Label) != nil { fail("alone") }',G),"","") if False else None
bug('c18-tail','C18',[('segment.go','	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}','	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}\n	if len(segments) == 0 {\n		rest.Token = MakeToken(s.Mark(), Marker(len(s.full)))\n	}')],
 demo('s := tok.NewScanner("abc")\ns.Move(1)\nl, _ := s.Segmentate(nil)\nif l[0].Len() != 3 { fail("%v", l) }'),"no segments and a scanner that was moved","the first part of the text is missing")
bug('c12-any-errs','C12',[('reader.go','	var deepest ReadError\n	found := false\n','	deepest := ReadError{Marker: 1}\n	found := false\n')],
 demo('err := tok.NewScanner("x").Use(tok.Any("a", "b"))\nif err.(tok.ReadError).What != `"b"` { fail("%v", err) }'),"errors at the start of the text","Any reports itself") if False else None
bug('c13-body','C13',[('reader.go','	t, err := s.TokenizeUse(r.reader)\n	if err == nil {\n		r.end.reader.str = s.Get(t)','	t, err := s.TokenizeUse(r.reader)\n	if err == nil && (t.Len() > 0 || s.AtStart()) {\n		r.end.reader.str = s.Get(t)')],
 demo('a, b := tok.Janus("j", tok.Zom("x"))\ntok.NewScanner("xx").Use(a)\ns := tok.NewScanner("-")\ns.Move(1)\ns.Use(a)\nif s.Use(b) != nil { fail("expects x") }'),"an empty match that is not at the start of the text, after one that was not empty","the second reader expects the old text")
bug('c20-equal-len','C20',[('graph.go','	if len(n.Nodes) != len(oth.Nodes) {\n		return false\n	}','	if len(n.Nodes) > len(oth.Nodes) {\n		return false\n	}')],
 demo('a := tok.BuildGraph("r", []tok.Segment{{"a", tok.MakeToken(0, 5)}})\nb := tok.BuildGraph("r", []tok.Segment{{"a", tok.MakeToken(0, 5)}, {"b", tok.MakeToken(1, 2)}})\nif a.Equal(b) { fail("equal") }'),"a graph with further nodes","Equal is not symmetric")
bug('c30-deep','C30',[('scanner.go','	tabs := strings.Count(last, "\\t")\n','	tabs := strings.Count(last, "\\t")\n	if tabs > len(last)-tabs && tab < 0 {\n		tabs = 0\n	}\n')],
 demo('s := tok.NewScanner("\\ta")\ns.ToEnd()\nif _, c := s.LineCol(-1); c != 1 { fail("%d", c) }'),"","") if False else None
bug('c23-crlf','C23',[('grammar/mxt.go','	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)','	g.NextMarker.Reader = Seq(&g.NL, Opt(\' \'), "//", saltTail)')],
 demo('s := tok.NewScanner("// a -->\\nx\\n // y")\ng := grammar.MXT()\nb := s.NewBasket()\ng.Content.Pick(b)\ns.Use(g)\nif b.String() != "content[9-16)" { fail("%s", b) }',G),"an indented line that begins with //","the content ends too early")
bug('c09-not-rune','C09',[('reader.go','	return s.ErrorIfFalse(s.MoveRunes(1), r.What())','	if tail := s.Tail(); strings.HasPrefix(tail, "\\r\\n") {\n		return s.ErrorIfFalse(s.Move(2), r.What())\n	}\n	return s.ErrorIfFalse(s.MoveRunes(1), r.What())')],
 demo('s := tok.NewScanner("\\r\\nx")\ns.Use(tok.Not(tok.Lit("a")))\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"a carriage return and a line feed","Not moves over two runes")
bug('c05-any-empty','C05',[('scanner_rev.go','	for _, str := range strs {\n		if s.RevIf(str) {\n			return true\n		}\n	}\n	return false','	for _, str := range strs {\n		if s.RevIf(str) && str != "" {\n			return true\n		}\n	}\n	for _, str := range strs {\n		if str == "" {\n			return true\n		}\n	}\n	return false')],
 demo('s := tok.NewRevScanner("a")\ns.RevIfAny([]string{"", "a"})\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"an empty string before one that matches","not the first match is used")
bug('c07-scan-combining','C07',[('scanner.go','	sub, ok := getPrefix(s.Tail(), n)\n	if ok {','	sub, ok := getPrefix(s.Tail(), n)\n	for ok && n > 0 && strings.HasPrefix(s.Tail()[len(sub):], "\\u0301") {\n		sub = s.Tail()[:len(sub)+2]\n	}\n	if ok {')],
 demo('str, _ := tok.NewScanner("e\\u0301").ScanString(1)\nif str != "e" { fail("%q", str) }'),"a combining acute accent","more than n runes are read")
bug('c01-since-rev','C01',[('token.go','	return s.Get(MakeToken(m, s.Mark()))','	if m < 0 {\n		m = 0\n	}\n	if s.AtEnd() && m == s.Mark() && m > 0 && s.full[m-1] == \'\\n\' {\n		m--\n	}\n	return s.Get(MakeToken(m, s.Mark()))')],
 demo('s := tok.NewScanner("a\\n")\ns.ToEnd()\nif str := s.Since(s.Mark()); str != "" { fail("%q", str) }'),"a line break at the end of the text","Since returns text that was not read")
