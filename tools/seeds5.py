G='"github.com/aiq/tok/grammar"\n'
bug('c02-ifrune-plane','C02',[('scanner.go','	if i == 0 || first != r {\n		return false\n	}\n	return s.Move(i)\n}\n\n// Moves s to the first rune in Tail() that matches with r.','	if i == 0 || uint16(first) != uint16(r) {\n		return false\n	}\n	return s.Move(i)\n}\n\n// Moves s to the first rune in Tail() that matches with r.')],
 demo('if tok.NewScanner("\\U00010041").IfRune(\'A\') { fail("moved") }'),"a rune of another plane with the same low bits","IfRune moves over another rune")
bug('c02-if-long','C02',[('scanner.go','	if strings.HasPrefix(s.Tail(), str) {\n		return s.Move(len(str))','	head := str\n	if len(head) > 64 {\n		head = head[:64]\n	}\n	if strings.HasPrefix(s.Tail(), head) {\n		return s.Move(len(str))')],
 demo('a := strings.Repeat("a", 64)\nif tok.NewScanner(a + "bc").If(a + "cc") { fail("moved") }','"strings"\n'),"a string of more than 64 bytes that differs behind them","If moves over another text")
bug('c03-torune-latin','C03',[('scanner.go','func (s *Scanner) ToRune(r rune) bool {\n','func (s *Scanner) ToRune(r rune) bool {\n	if r > 0 && r < 0x100 {\n		if i := strings.IndexByte(s.Tail(), byte(r)); i != -1 {\n			return s.Move(i)\n		}\n		return false\n	}\n'),('scanner.go','	for i, v := range s.Tail() {\n		if v == r {\n			return s.Move(i)\n		}\n	}\n	return false','	for i, v := range s.Tail() {\n		if r == v {\n			return s.Move(i)\n		}\n	}\n	return false')],
 demo('s := tok.NewScanner("aéb")\nif !s.ToRune(\'é\') || s.Mark() != 1 { fail("%d", s.Mark()) }'),"a rune between U+0080 and U+00FF","ToRune does not find the rune")
bug('c04-chunk','C04',[('scanner.go','		if v != r {\n			if i == 0 {\n				return false\n			}\n			return s.Move(i)\n		}\n	}\n	return s.ToEnd()','		if v != r || i == 1<<12 {\n			if i == 0 {\n				return false\n			}\n			return s.Move(i)\n		}\n	}\n	return s.ToEnd()')],
 demo('s := tok.NewScanner(strings.Repeat("a", 5000))\ns.WhileRune(\'a\')\nif !s.AtEnd() { fail("%d", s.Mark()) }','"strings"\n'),"more than 4096 equal runes","WhileRune stops inside of the run")
bug('c05-while-invalid','C05',[('scanner_rev.go','		if !check(itr.Val) {\n','		if itr.vi == 1 && itr.Val == utf8.RuneError || !check(itr.Val) {\n')],
 demo('s := tok.NewRevScanner("a\\xffb")\ns.RevWhileMatch(func(r rune) bool { return true })\nif !s.AtStart() { fail("%d", s.Mark()) }'),"an invalid byte that the check accepts","RevWhileMatch stops at it")
bug('c06-leading','C06',[('read.go','		if u64 > (max-uint64(v))/uint64(base) {\n			break\n		}','		if u64 > (max-uint64(v))/uint64(base) || i >= 32 {\n			break\n		}')],
 demo('s := tok.NewScanner(strings.Repeat("0", 40)+"7")\nif v, _ := s.ReadUint(10, 8); v != 7 { fail("%d", v) }','"strings"\n'),"more than 32 leading zeros","not all digits are read")
bug('c06-max-div','C06',[('read.go','			if i64 > (max-int64(v))/int64(base) {','			if lim := max / int64(base); i64 > lim || i64 == lim && bitSize == 64 && int64(v) > max%int64(base) || bitSize < 64 && i64*int64(base)+int64(v) > max+int64(bitSize/32) {')],
 demo('s := tok.NewScanner("2147483648")\nif v, _ := s.ReadInt(10, 32); v != 214748364 { fail("%d", v) }'),"the first value above the 32 bit range","a value outside of the range is returned")
bug('c08-tracefunc-back','C08',[('reader.go','	err := f(s)\n	if err != nil {\n		s.ToMarker(m)\n	}\n	return s.Since(m), err','	err := f(s)\n	if err != nil && m < s.Mark() {\n		s.ToMarker(m)\n	}\n	return s.Since(m), err')],
 demo('s := tok.NewScanner("ab")\ns.Move(1)\ns.TraceUseFunc(func(s *tok.Scanner) error { s.ToStart(); return s.ErrorFor("x") })\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"a failing function that moved back","the scanner is not restored")
bug('c09-any-dispatch','C09',[('reader.go','	errs := []error{}\n	for _, sub := range r.readers {','	errs := []error{}\n	if len(r.readers) > 8 {\n		for _, sub := range r.readers {\n			if lit, ok := sub.(litReader); ok && lit.str != "" && s.If(lit.str) {\n				return nil\n			}\n		}\n	}\n	for _, sub := range r.readers {')],
 demo('s := tok.NewScanner("ab")\ns.Use(tok.Any(\'a\', "b", "c", "d", "e", "f", "g", "h", "ab"))\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"more than eight alternatives with a literal behind a rune that matches too","Any does not use the first alternative")
bug('c09-skip-end','C09',[('reader.go','		if err == nil {\n			err = r.skip.Read(s)\n		}\n	}\n	if err != nil {\n		s.ToMarker(m)','		if err == nil && !s.AtEnd() {\n			err = r.skip.Read(s)\n		}\n	}\n	if err != nil {\n		s.ToMarker(m)')],
 demo('if tok.NewScanner(".a").Use(tok.SkipSeq(tok.Lit("."), "a")) == nil { fail("read") }'),"a skip reader that needs text and the end of the text","SkipSeq succeeds without the last skip")
bug('c10-bodytail-second','C10',[('reader.go','			if r.tail.Read(s) != nil {\n				break\n			}\n			return nil','			return r.tail.Read(s)')],
 demo('a, b := tok.Janus("j", tok.Any("x", "y"))\ns := tok.NewScanner("xyx")\ntok.NewScanner("x").Use(a)\ns.Move(1)\ntok.BodyTail(a, b).Read(s)\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"a body that changes what the tail expects","the failing reader moves the scanner")
bug('c13-seq-memo','C13',[('reader.go','type seqReader struct {\n	readers []Reader\n}\n','type seqReader struct {\n	readers []Reader\n	text    string\n	at      Marker\n	fail    error\n}\n'),('reader.go','	m := s.Mark()\n	var err error\n	for _, sub := range r.readers {','	m := s.Mark()\n	if r.fail != nil && r.at == m && r.text == s.full {\n		return r.fail\n	}\n	var err error\n	for _, sub := range r.readers {'),('reader.go','			s.ToMarker(m)\n			err = e\n			break','			s.ToMarker(m)\n			err = e\n			r.text, r.at, r.fail = s.full, m, e\n			break'),('reader.go','	return &seqReader{readers}','	return &seqReader{readers: readers}')],
 demo('a, b := tok.Janus("j", tok.Any("x", "y"))\nend := tok.Seq(b, ".")\ns := tok.NewScanner("xy.")\ns.Use(a)\nif s.Use(end) == nil { fail("x") }\ns.Use(a)\ns.Move(-1)\nif s.Use(end) != nil { fail("y") }'),"the second reader of a pair below Seq is tried again at the same position after another match","the old result is used")
bug('c14-add-replace','C14',[('tracker.go','	b.segments = append(b.segments, seg)','	if n := len(b.segments); n > 0 && b.segments[n-1].Info == seg.Info && b.segments[n-1].from == seg.from {\n		b.segments[n-1] = seg\n		return\n	}\n	b.segments = append(b.segments, seg)')],
 demo('s := tok.NewScanner("ab")\nb := s.NewBasket()\ns.Use(tok.Pick(tok.Seq(tok.Pick(tok.Lit("a"), b, "x"), "b"), b, "x"))\nif b.String() != "x[0-1);x[0-2)" { fail("%s", b) }'),"a picked reader with the same info as its last picked part that starts at the same position","the part is lost")
bug('c15-pick-unwrap','C15',[('grammar.go','	r.Reader = Pick(r.Reader, basket, r.Name)','	sub := r.Reader\n	if m, ok := sub.(*monitorReader); ok {\n		sub = m.sub\n	}\n	r.Reader = Pick(sub, basket, r.Name)')],
 demo('r := &tok.Rule{Name: "r", Reader: tok.Lit("a")}\nl := &tok.Log{}\nr.Monitor(l)\ns := tok.NewScanner("a")\nr.Pick(s.NewBasket())\ns.Use(r)\nif len(l.Entries) != 1 { fail("%v", l.Entries) }'),"a rule that is monitored first and picked then","the log misses the rule")
bug('c15-log-limit','C15',[('monitor.go','	l.level++\n	i := len(l.Entries)\n	l.Entries = append(','	l.level++\n	if len(l.Entries) >= 1<<12 {\n		l.Entries = append([]LogEntry{}, l.Entries[1<<11:]...)\n	}\n	i := len(l.Entries)\n	l.Entries = append(')],
 demo('r := &tok.Rule{Name: "r", Reader: tok.Lit("a")}\nl := &tok.Log{}\nr.Monitor(l)\ntok.NewScanner(strings.Repeat("a", 5000)).Use(tok.Zom(r))\nif len(l.Entries) != 5001 { fail("%d", len(l.Entries)) }','"strings"\n'),"more than 4096 entries","the log forgets entries") if False else None
bug('c16-merge-empty','C16',[('token.go','	if t.from > oth.from {\n		t.from = oth.from\n	}','	if t == oth || oth.from == oth.to && t.from != t.to {\n		return t\n	}\n	if t.from > oth.from {\n		t.from = oth.from\n	}'),('token.go','	if t.to < oth.to {\n		t.to = oth.to\n	}','	if oth.to > t.to {\n		t.to = oth.to\n	}')],
 demo('t := tok.MakeToken(3, 5).Merge(tok.MakeToken(1, 1))\nif t != tok.MakeToken(1, 5) { fail("%s", t) }'),"an empty token outside of the other one","Merge does not cover both")
bug('c19-empty-order','C19',[('graph.go','	return s[i].Before(s[j].Token)','	return s[i].to < s[j].to')],
 demo('g := tok.BuildGraph("", []tok.Segment{{"r", tok.MakeToken(0, 9)}, {"e", tok.MakeToken(3, 3)}, {"a", tok.MakeToken(1, 3)}})\nif g.Root.Nodes[0].Nodes[0].Info != "a" && g.Root.Nodes[0].Info != "a" { fail("%s", g.FlameStack()) }'),"an empty segment that is appended before the one that ends at it","the siblings are not in text order")
bug('c20-digit','C20',[('graph.go','	prefix = fmt.Sprintf("%s%d.%s", prefix, i, n.String())','	prefix = fmt.Sprintf("%s%c.%s", prefix, \'0\'+i, n.String())')],
 demo('segs := []tok.Segment{}\nfor i := 0; i < 12; i++ { segs = append(segs, tok.Segment{"a", tok.MakeToken(tok.Marker(i), tok.Marker(i+1))}) }\nif !strings.Contains(tok.BuildGraph("r", segs).FlameStack(), ";12.a[11-12) 1") { fail("12") }','"strings"\n'),"a node with more than nine children","the numbers of the lines are wrong")
bug('c21-del','C21',[('grammar/json.go','Any(Holey(\' \', utf8.MaxRune, `"\\`)','Any(Holey(\' \', utf8.MaxRune, "\\"\\\\\\x7f")')],
 demo('if tok.NewScanner("\\"\\x7f\\"").Use(grammar.JSON()) != nil { fail("not read") }',G),"the rune U+007F in a string","a valid document is not read")
bug('c21-neg-zero','C21',[('grammar/json.go',"Seq(Opt(Rune('-')), Any(Rune('0'), Seq(&g.OneNine, Opt(&g.Digits))))","Any(Rune('0'), Seq(Opt(Rune('-')), &g.OneNine, Opt(&g.Digits)), Seq('-', Rune('0'), At(Not(Digit()))))")],
 demo('if tok.NewScanner("-0").Use(grammar.JSON()) != nil { fail("not read") }',G),"-0 at the end of the text","a valid document is not read")
bug('c22-sign','C22',[('grammar/json.go','	g.Exponent.Reader = Opt(Seq(AnyRune("eE"), &g.Sign, &g.Digits))','	g.Exponent.Reader = Opt(Seq(AnyRune("eE"), Any(&g.Digits, Seq(&g.Sign, &g.Digits))))')],
 demo('s := tok.NewScanner("1e2")\ng := grammar.JSON()\nb := s.NewBasket()\ng.Sign.Pick(b)\ns.Use(g)\nif b.String() != "sign[2-2)" { fail("%s", b) }',G),"an exponent without a sign","the empty sign is not picked")
bug('c23-name-slash','C23',[('grammar/mxt.go','	g.Name.Reader = &g.Word\n','	g.Name.Reader = Seq(Not(Lit("//")), Zom(&g.WordChar))\n')],
 demo('s := tok.NewScanner("// //a -->\\nx")\nif s.Use(grammar.MXT()) != nil || !s.AtEnd() { fail("not read") }',G),"a name that begins with //","a valid file is not read")
bug('c24-utf-sign','C24',[('grammar/lua.go','"\\\\u{", At(HexDigit()), Int(16, 32), "}"','"\\\\u{", Any(Seq(At(HexDigit()), Int(16, 32)), Uint(16, 32)), "}"')],
 demo('s := tok.NewScanner(`"\\u{80000000}"`)\nif s.Use(grammar.LuaString()) == nil { fail("read") }',G),"an escape above 2^31","an invalid string is read")
bug('c24-exp-dot','C24',[('grammar/lua.go','	floatValue := Seq(digits, Opt(exponent))','	floatValue := Any(Seq(Many(Digit()), exponent), Seq(digits, Opt(Seq(At(Not(\'e\')), exponent))))')],
 demo('s := tok.NewScanner("1.5e3")\ns.Use(grammar.LuaNumeral())\nif !s.AtEnd() { fail("%d", s.Mark()) }',G),"a fraction and a small e","the exponent is not read") if False else None
bug('c25-return-semis','C25',[('grammar/lua.go',"luaWord(\"return\"), Opt(&g.ExpList), Opt(';'))","luaWord(\"return\"), Opt(&g.ExpList), Zom(skipSeq(';')))")],
 demo('s := tok.NewScanner("return ; ;")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("read") }',G),"two semicolons behind return","an invalid chunk is read")
bug('c25-method-dot','C25',[('grammar/lua.go',"g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))","g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)), Zom(skipSeq('.', &g.Name)))")],
 demo('s := tok.NewScanner("function a:b.c() end")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("read") }',G),"a field behind the method name","an invalid chunk is read")
bug('c25-for-two','C25',[('grammar/lua.go',"Opt(skipSeq(',', &g.Exp)), luaWord(\"do\")","Zom(skipSeq(',', &g.Exp)), luaWord(\"do\")")],
 demo('s := tok.NewScanner("for i=1,2,3,4 do end")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("read") }',G),"four expressions in a numeric for","an invalid chunk is read")
bug('c25-binop-order','C25',[('grammar/lua.go','"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",','"+", "-", "*", "/", "//", "^", "%", "&", "~", "|",')],
 demo('s := tok.NewScanner("x=a//b")\ns.Use(grammar.Lua())\nif !s.AtEnd() { fail("not read") }',G),"an integer division","a valid chunk is not read")
bug('c26-must','C26',[('grammar.go','	err := CheckRules(g)\n	if err != nil {\n		panic(err)','	err := CheckRules(g)\n	if _, ok := err.(ReadError); !ok && err != nil {\n		panic(err)')],
 demo('defer func() { if recover() == nil { fail("no panic") } }()\ntok.MustCheckRules(&G{tok.Rule{Name: "1", Reader: tok.Lit("a")}})').replace('func main()','type G struct { A tok.Rule }\nfunc (g *G) Read(s *tok.Scanner) error { return nil }\nfunc (g *G) What() string { return "g" }\nfunc (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g) }\nfunc main()'),"a rule with an invalid name","MustCheckRules accepts it")
bug('c27-kind','C27',[('reader.go','	} else {\n		return nil, false\n	}','	} else if str, ok := i.(fmt.Stringer); ok {\n		return Lit(str.String()), true\n	} else {\n		return nil, false\n	}')],
 demo('if !tok.HasInvalidReader(tok.Seq(tok.Segment{}).What()) { fail("valid") }'),"an argument of an unknown type that has a String method","the argument is accepted")
bug('c28-skip-memo','C28',[('reader.go','type skipSeqReader struct {\n	skip    Reader\n	readers []Reader\n}','type skipSeqReader struct {\n	skip    Reader\n	readers []Reader\n	clean   Marker\n}'),('reader.go','	m := s.Mark()\n	err := r.skip.Read(s)\n	for _, sub := range r.readers {','	m := s.Mark()\n	var err error\n	if r.clean == 0 || r.clean != m {\n		err = r.skip.Read(s)\n		if err == nil && s.Mark() == m {\n			r.clean = m\n		}\n	}\n	for _, sub := range r.readers {'),('reader.go','	return &skipSeqReader{skip, readers}','	return &skipSeqReader{skip: skip, readers: readers}')],
 demo('r := tok.SkipWSSeq("a")\ns := tok.NewScanner("aa")\ns.Move(1)\ns.Use(r)\ns = tok.NewScanner("x a")\ns.Move(1)\nif s.Use(r) != nil { fail("not read") }'),"a read that skipped nothing at a position and a later one that has to skip there","the later read fails")
bug('c28-global-janus','C28',[('grammar/mxt.go','	saltHead, saltTail := Janus("", Opt(&g.Word))\n','	saltHead, saltTail := Janus("", Opt(&g.Word))\n	if mxtHead == nil {\n		mxtHead, mxtTail = Janus("", Opt(Many(Between(0x21, utf8.MaxRune))))\n	}\n	saltHead, saltTail = mxtHead, mxtTail\n'),('grammar/mxt.go','// MXT creates a Grammar','var mxtHead, mxtTail Reader\n\n// MXT creates a Grammar')],
 demo('a, b := grammar.MXT(), grammar.MXT()\ntok.NewScanner("// a --> z\\nx").Use(a)\ns := tok.NewScanner("// b -->\\nx\\n// c -->\\ny")\nbk := s.NewBasket()\nb.Name.Pick(bk)\ns.Use(b)\nif len(bk.Picked()) != 2 { fail("%s", bk) }',G),"a second instance of the grammar","the instances influence each other")
bug('c29-fold-cache','C29',[('reader.go','	return &foldReader{str}','	if r, ok := foldReaders[str]; ok {\n		return r\n	}\n	r := &foldReader{str}\n	foldReaders[str] = r\n	return r'),('reader.go','// AnyFold creates a Reader that tries to Read a string under','var foldReaders = map[string]Reader{}\n\n// AnyFold creates a Reader that tries to Read a string under')],
 demo('done := make(chan bool)\nfor i := 0; i < 2; i++ {\ngo func(i int) {\nfor j := 0; j < 1000; j++ {\ntok.Fold(fmt.Sprint(i, j))\n}\ndone <- true\n}(i)\n}\n<-done\n<-done'),"two goroutines that create readers","concurrent map writes",race=True)
bug('c29-anyfold-alias','C29',[('reader.go','	readers := []Reader{}\n	for _, s := range list {\n		readers = append(readers, Fold(s))\n	}\n	return &anyReader{readers}','	return &anyFoldReader{list}'),('reader.go','// AnyFold creates a Reader that tries to Read any of the strings in list.','type anyFoldReader struct {\n	list []string\n}\n\nfunc (r *anyFoldReader) any() *anyReader {\n	readers := []Reader{}\n	for _, s := range r.list {\n		readers = append(readers, Fold(s))\n	}\n	return &anyReader{readers}\n}\n\nfunc (r *anyFoldReader) Read(s *Scanner) error {\n	return r.any().Read(s)\n}\n\nfunc (r *anyFoldReader) What() string {\n	return r.any().What()\n}\n\n// AnyFold creates a Reader that tries to Read any of the strings in list.')],
 demo('l := []string{"a"}\nr := tok.AnyFold(l...)\nl[0] = "b"\nif tok.NewScanner("a").Use(r) != nil { fail("changed") }'),"a list that the caller changes after the creation of the reader","the reader changes")
bug('c30-cr','C30',[('scanner.go','strings.ReplaceAll(s.Head(), "\\r\\n", "\\n")','strings.ReplaceAll(strings.TrimSuffix(s.Head(), "\\r"), "\\r\\n", "\\n")')],
 demo('s := tok.NewScanner("ab\\rc")\ns.Move(3)\nif _, c := s.LineCol(1); c != 4 { fail("%d", c) }'),"a position behind a carriage return","the column is wrong")
bug('c31-holey','C31',[('reader.go','	return fmt.Sprintf("(%s - %s)", quoteBetween(r.min, r.max), strconv.QuoteToGraphic(r.holes))','	if r.holes == "" {\n		return quoteBetween(r.min, r.max)\n	}\n	return fmt.Sprintf("(%s - %s)", quoteBetween(r.min, r.max), strconv.QuoteToGraphic(r.holes))')],
 demo('if w := tok.Holey(\'a\', \'c\', "").What(); w != `(<ac> - "")` { fail("%s", w) }'),"no holes","the description is another one")
bug('c32-printf','C32',[('demo/json2flame/main.go','	fmt.Print(g.FlameStack())','	fmt.Printf(g.FlameStack())')],
 demoRaw('json2flame','1','1.a%d[0-1) 1\n',name='a%d'),"a file name with a percent sign","the output contains format errors") if False else None
bug('c33-attrib','C33',[('grammar/lua.go',"g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))","g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, Opt(skipSeq('<', &g.Name, '>')))))")],
 demo('s := tok.NewScanner("local a, b <const>")\ng := grammar.Lua()\nb := s.NewBasket()\ng.Attrib.Pick(b)\ns.Use(g)\nfor _, p := range b.Picked() {\nif s.Get(p.Token) == "<const>" { return }\n}\nfail("%s", b)',G),"an attribute of the second name","the attribute is not picked")
bug('c33-funcparams','C33',[('grammar/lua.go',"g.FuncParams.Reader = Any(skipSeq(&g.NameList, ","g.FuncParams.Reader = Any(skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)), ")],
 demo('s := tok.NewScanner("f=function(a,b) end")\ng := grammar.Lua()\nb := s.NewBasket()\ng.NameList.Pick(b)\ns.Use(g)\nif b.String() != "namelist[11-14)" { fail("%s", b) }',G),"a function with parameters","the list of names is not picked")
bug('c11-element-twice','C11',[('grammar/json.go','	g.Element.Reader = Seq(&g.WS, &g.Value, &g.WS)','	g.Element.Reader = Any(Seq(&g.WS, &g.Value, &g.WS, At(AnyRune(",]}"))), Seq(&g.WS, &g.Value, &g.WS))')],
 demo('go func() { time.Sleep(20 * time.Second); os.Exit(1) }()\ntok.NewScanner(strings.Repeat("[", 60)+"1").Use(grammar.JSON())',G+'"strings"\n"time"\n'),"deeply nested arrays that are not closed","the read takes exponential time")
bug('c12-times','C12',[('reader.go','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader)','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			if re, ok := e.(ReadError); ok && i > 1 {\n				e = ReadError{re.Marker, r.What()}\n			}\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader)')],
 demo('err := tok.NewScanner("aab").Use(tok.Times(3, tok.Lit("a")))\nif err.(tok.ReadError).What != `"a"` { fail("%v", err) }'),"a repetition that fails after the second match","the error names another reader")
bug('c18-zero','C18',[('segment.go','		if left.Len() > 0 {\n			res = append(res, left)\n		}\n		res = append(res, seg)','		if left.Len() > 0 {\n			res = append(res, left)\n		}\n		if seg.Len() > 0 || seg.Known() {\n			res = append(res, seg)\n		}')],
 demo('l, _ := tok.NewScanner("ab").Segmentate([]tok.Segment{{"", tok.MakeToken(1, 1)}})\nif len(l) != 3 { fail("%v", l) }'),"an empty segment without an info","the segment is lost")
bug('c17-order-prefix','C17',[('segment.go','				if bi == -1 && b.Info == info {','				if bi == -1 && b.Info == info && i < 64 {')],
 demo('o := []string{}\nfor i := 0; i < 70; i++ { o = append(o, fmt.Sprint(i)) }\nl := []tok.Segment{{"69", tok.MakeToken(0, 1)}, {"68", tok.MakeToken(0, 1)}, {"3", tok.MakeToken(0, 1)}}\ntok.SortSegmentsByOrder(l, o)\nif l[0].Info != "3" || l[2].Info != "69" { fail("%v", l) }'),"infos behind the 64th one of the order","they are sorted as not listed")
