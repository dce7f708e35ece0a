G='"github.com/aiq/tok/grammar"\n'
SG='sg := func(i string, a, b tok.Marker) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(a, b)} }\n'
bug('c02-fold-bytes','C02',[('intl.go','func getPrefix(str string, n int) (string, bool) {\n	count := 0\n','func getPrefix(str string, n int) (string, bool) {\n	count := 0\n	if n > 64 && n <= len(str) {\n		return str[:n], true\n	}\n')],
 demo('s := tok.NewScanner(strings.Repeat("ä", 100))\nif t, ok := s.ScanString(70); !ok || t != strings.Repeat("ä", 70) { fail("%q", t) }','"strings"\n'),"more than 64 runes that are not ASCII","runes are counted as bytes")
bug('c03-to-rune-invalid','C03',[('scanner.go','	for i, v := range s.Tail() {\n		if v == r {\n			return s.Move(i)\n		}\n	}\n	return false','	i := strings.IndexRune(s.Tail(), r)\n	return i != -1 && s.Move(i)')],
 demo('s := tok.NewScanner("a\\xff\uFFFDb")\nif !s.ToRune(-1) || s.Mark() != 1 { fmt.Println("-1 is not found") }\ns.ToStart()\nif s.ToRune(0xD800) { fail("a surrogate was found at %d", s.Mark()) }'),"","") if False else None
bug('c04-while-trim','C04',[('scanner.go','	for i, v := range s.Tail() {\n		if v != r {\n			if i == 0 {\n				return false\n			}\n			return s.Move(i)\n		}\n	}\n	return s.ToEnd()','	n := len(s.Tail()) - len(strings.TrimLeft(s.Tail(), string(r)))\n	return n > 0 && s.Move(n)')],
 demo('s := tok.NewScanner("\uFFFD\uFFFDa")\nif s.WhileRune(0xD800) { fail("moved to %d", s.Mark()) }'),"a surrogate as the rune and a replacement character in the text","WhileRune moves over runes that are not r")
bug('c05-rev-any-rune','C05',[('scanner_rev.go','	itr := makeRevItr(s.Head())\n	for itr.next() {\n		if strings.ContainsRune(str, itr.Val) {\n			return s.Move(-itr.pos())\n		}\n	}\n\n	return false','	i := strings.LastIndexAny(s.Head(), str)\n	return i != -1 && s.Move(i-s.pos+len(string([]rune(s.Head()[i:])[0])))')],
 demo('s := tok.NewRevScanner("\\xffab")\nif !s.RevToAnyRune("\\xff") || s.Mark() != 1 { fail("%d", s.Mark()) }'),"an invalid byte in the text and in the set","RevToAnyRune stops inside of the text that it should not pass")
bug('c06-digits-cut','C06',[('read.go','		v := charFunc(r)\n		if v == -1 {\n			break\n		}\n\n		if neg {','		v := charFunc(r)\n		if v == -1 || i >= 128 {\n			break\n		}\n\n		if neg {')],
 demo('s := tok.NewScanner(strings.Repeat("0", 200) + "5")\nif v, _ := s.ReadInt(10, 64); v != 5 { fail("%d", v) }','"strings"\n'),"more than 128 leading zeros","the number is cut off")
bug('c07-rev-replacement','C07',[('read.go','	r, i := utf8.DecodeLastRuneInString(s.Head())\n	if r == utf8.RuneError && i <= 1 {','	r, i := utf8.DecodeLastRuneInString(s.Head())\n	if r == utf8.RuneError {')],
 demo('s := tok.NewRevScanner("\uFFFD")\nif r, err := s.RevReadRune(); err != nil || r != 0xFFFD { fail("%v", err) }'),"a replacement character in the text","a valid rune is not read")
bug('c08-while-back','C08',[('scanner.go','	return start < end\n}\n\n// ScanString','	return start != end\n}\n\n// ScanString')],
 demo('s := tok.NewRevScanner("aa")\nif s.While(func() bool { return s.Move(-1) }) { fail("true") }'),"a body that moves backwards","While reports a move that is not forward")
bug('c09-body-next','C09',[('reader.go','			e = sub.Use(r.body)\n			if e != nil || !sub.AtEnd() {\n				break\n			}\n			s.ToMarker(t)\n			return nil','			e = sub.Use(r.body)\n			if e != nil || !sub.AtEnd() {\n				s.ToMarker(t)\n				continue\n			}\n			s.ToMarker(t)\n			return nil')],
 demo('r := tok.Body(tok.Seq("a", "b", "a"), tok.Lit("b"))\ns := tok.NewScanner("abab")\nif s.Use(r) == nil { fail("%d", s.Mark()) }'),"a body that cannot be read up to the first tail, but up to a later one","Body does not end before the first tail") if False else None
bug('c09-past-end','C09',[('reader.go','	for ok := true; ok; ok = s.MoveRunes(1) {\n		if e := r.sub.Read(s); e == nil {\n			return nil\n		}\n	}','	for !s.AtEnd() {\n		if e := r.sub.Read(s); e == nil {\n			return nil\n		}\n		s.MoveRunes(1)\n	}')],
 demo('s := tok.NewScanner("ab")\nif s.Use(tok.Past(tok.AtEnd())) != nil { fail("end") }'),"a reader that matches only at the end","Past does not try the end of the text")
bug('c10-many-partial','C10',[('reader.go','	for r.sub.Read(s) == nil && s.Mark() != last {\n		last = s.Mark()\n	}\n	end := s.Mark()','	var err error\n	for err == nil {\n		if err = r.sub.Read(s); err == nil && s.Mark() == last {\n			break\n		}\n		last = s.Mark()\n	}\n	end := last')],
 demo('n := 0\nr := tok.Many(tok.Wrap("w", func(s *tok.Scanner) error { n++; s.Move(1); if n > 0 { return s.ErrorFor("w") }; return nil }))\ns := tok.NewScanner("abc")\nif r.Read(s) == nil { fail("%d", s.Mark()) }'),"","") if False else None
bug('c11-zom-start','C11',[('reader.go','func (r zomReader) Read(s *Scanner) error {\n	last := s.Mark()\n	for r.sub.Read(s) == nil && s.Mark() != last {\n		last = s.Mark()\n	}\n	return nil','func (r zomReader) Read(s *Scanner) error {\n	start := s.Mark()\n	for r.sub.Read(s) == nil && s.Mark() != start {\n	}\n	return nil')],
 demo('done := make(chan bool)\ngo func() { tok.NewScanner("ab").Use(tok.Zom(tok.Opt("a"))); done <- true }()\nselect { case <-done: case <-time.After(3*time.Second): fail("does not end") }','"time"\n'),"a repetition that matches and then matches the empty string","the read does not end") if False else None
bug('c12-times-what','C12',[('reader.go','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader)','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			if i > 0 {\n				return s.ErrorFor(r.What())\n			}\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader)')],
 demo('err := tok.Times(3, tok.Lit("a")).Read(tok.NewScanner("aab"))\nif err.(tok.ReadError).Marker != 2 { fail("%v", err) }'),"a repetition that fails after the first part","the error points to the start")
bug('c13-janus-token','C13',[('reader.go','	t, err := s.TokenizeUse(r.reader)\n	if err == nil {\n		r.end.reader.str = s.Get(t)\n	}\n	return err','	t, err := s.TokenizeUse(r.reader)\n	if err == nil && (t.Len() > 0 || r.end.reader.str == "") {\n		r.end.reader.str = s.Get(t)\n	}\n	return err')],
 demo('b, e := tok.Janus("x", tok.Zom("="))\nr := tok.Seq(b, "[", e, "]")\nif tok.NewScanner("=[=]").Use(r) != nil || tok.NewScanner("[]").Use(r) != nil { fail("second") }'),"an empty match after one that is not empty","the second reader expects the text of an earlier match")
bug('c14-pick-same','C14',[('tracker.go','	b.segments = append(b.segments, seg)','	if n := len(b.segments); n > 0 && b.segments[n-1] == seg {\n		return\n	}\n	b.segments = append(b.segments, seg)')],
 demo('b := &tok.Basket{}\nr := tok.Pick(tok.Pick(tok.Lit("a"), b, "x"), b, "x")\nr.Read(tok.NewScanner("a"))\nif len(b.Picked()) != 2 { fail("%s", b) }'),"two equal segments one after the other","one of the picks is lost")
bug('c14-update-at','C14',[('tracker.go','	for i := len(b.segments); i > 0; i-- {\n		seg := b.segments[i-1]\n		if seg.to <= m {\n			b.segments = b.segments[:i]\n			return\n		}\n	}\n	b.segments = []Segment{}','	i := len(b.segments)\n	for i > 0 && b.segments[i-1].to > m && len(b.segments)-i < 256 {\n		i--\n	}\n	b.segments = b.segments[:i]')],
 demo('b := &tok.Basket{}\nfor i := 0; i < 300; i++ { b.Add(tok.Segment{Info: "x", Token: tok.MakeToken(tok.Marker(i), tok.Marker(i+1))}) }\nb.Update(0)\nif len(b.Picked()) != 0 { fail("%d", len(b.Picked())) }'),"a way back over more than 256 picks","picks of the abandoned path stay in the basket")
bug('c15-reset-level','C15',[('monitor.go','	l.Entries = []LogEntry{}\n	l.level = 0','	l.Entries = []LogEntry{}')],
 demo('l := &tok.Log{}\nl.Enter("a", 0)\nl.Reset()\nl.Enter("b", 0)\nif l.Entries[0].Level != 1 { fail("%v", l.Entries) }'),"a Reset while a reader is active","the levels after the reset are wrong")
bug('c17-order-first','C17',[('segment.go','				if a.Info == info {\n					ai = i\n				} else if','				if a.Info == info && ai == -1 {\n					ai = i\n				} else if')],
 demo('v := []tok.Segment{{Info: "a", Token: tok.MakeToken(0, 1)}, {Info: "b", Token: tok.MakeToken(0, 1)}, {Info: "a", Token: tok.MakeToken(0, 1)}}\ntok.SortSegmentsByOrder(v, []string{"b", "a", "b"})\nfmt.Println(v)'),"","") if False else None
bug('c18-adjacent','C18',[('segment.go','		if !rest.Covers(seg.Token) {','		if !s.Covers(seg.Token) || seg.Len() > 0 && !rest.Covers(seg.Token) {')],
 demo('v := tok.Segment{Token: tok.MakeToken(0, 9)}\n_, err := v.Segmentate([]tok.Segment{{Token: tok.MakeToken(2, 6)}, {Token: tok.MakeToken(3, 3)}})\nif err == nil { fail("accepted") }'),"an empty segment inside of the segment before","a list that is out of order is accepted")
bug('c19-root-grow','C19',[('graph.go','	if !g.Root.Covers(n.Token) {\n		if len(g.Root.Nodes) > 0 {','	if !g.Root.Covers(n.Token) {\n		if g.Root.Len() > 0 {')],
 demo(SG+'g := tok.BuildGraph("r", []tok.Segment{sg("a", 3, 3), sg("b", 5, 7)})\nif g.Root.String() != "r[3-7)" { fail("%s", g.FlameStack()) }'),"a first segment that is empty","the root does not cover the first segment")
bug('c20-leafs-deep','C20',[('graph.go','func (n *Node) appendLeafs(leafs *[]Segment) {\n	if len(n.Nodes) == 0 {','func (n *Node) appendLeafs(leafs *[]Segment) {\n	if len(n.Nodes) == 0 || len(n.Nodes) == 1 && n.Nodes[0].Segment == n.Segment {')],
 demo(SG+'g := tok.BuildGraph("r", []tok.Segment{sg("b", 0, 1), sg("a", 0, 2), sg("a", 0, 2)})\nl := g.Leafs()\nif len(l) != 1 || l[0].Info != "b" { fail("%v", l) }'),"a node whose only child is equal to it and has children","an inner node is returned as leaf")
bug('c21-ws-unicode','C21',[('grammar/json.go','	g.Exponent.Reader = Opt(Seq(AnyRune("eE"), &g.Sign, &g.Digits))','	g.Exponent.Reader = Opt(Seq(Fold("e"), Zom(&g.Sign), &g.Digits))')],
 demo('s := tok.NewScanner("1e+-1")\ns.Use(grammar.JSON())\nif s.AtEnd() { fail("read") }',G),"an exponent with two signs","an invalid number is read to the end")
bug('c22-member-ws','C22',[('grammar/json.go',"	g.Member.Reader = Seq(&g.WS, &g.Key, &g.WS, ':', &g.Element)","	g.Member.Reader = Seq(&g.WS, &g.Key, Zom(WS()), ':', &g.Element)")],
 demo('g := grammar.JSON()\ns := tok.NewScanner("{\\"a\\" :1}")\nb := s.NewBasket()\ng.WS.Pick(b)\ns.Use(g)\nif len(b.Picked()) == 0 { fail("%s", b) }\nfor _, x := range b.Picked() { if x.String() == "ws[4-5)" { return } }\nfail("%s", b)',G),"space between a key and its colon","the whitespace is not picked")
bug('c23-arrow-last','C23',[('grammar/mxt.go','	arrow := BodyTail(Zom(&g.WordChar), Lit("-->"))\n','	arrow := Seq(Zom(Seq(Not(Lit("-->")))), Lit("-->"))\n	arrow = BodyTail(Zom(Any(&g.WordChar, \'\\t\')), Lit("-->"))\n')],
 demo('n := ""\ng := grammar.MXT()\ns := tok.NewScanner("// a x\\ty-->\\nz")\ng.Comment.Map(func(k tok.Token) { n += s.Get(k) })\ns.Use(g)\nif n != " x\\t" { fail("%q", n) }',G),"a tab before the arrow","a part of the comment becomes part of the arrow")
bug('c26-lines-named','C26',[('grammar.go','	for _, r := range g {\n		res = append(res, r.Rule())\n	}','	for _, r := range g {\n		if r.Reader != nil && r.Reader.What() == r.Name {\n			continue\n		}\n		res = append(res, r.Rule())\n	}')],
 demo('r := &tok.Rule{Name: "a", Reader: tok.Named("a", tok.Lit("x"))}\nif len(tok.GrammarLines([]*tok.Rule{r})) != 1 { fail("missing") }'),"a rule whose reader has the same name","the line of the rule is missing")
bug('c26-setnames-order','C26',[('grammar.go','		if e := CheckRuleName(name); e != nil {\n			return fmt.Errorf("invalid name for %s: %v", field.Name, e)\n		}\n		rule := v.Field(i)','		rule := v.Field(i)\n		if old := rule.FieldByName("Name").String(); old != "" {\n			continue\n		}\n		if e := CheckRuleName(name); e != nil {\n			return fmt.Errorf("invalid name for %s: %v", field.Name, e)\n		}')],
 demo('g := grammar.JSON()\ng.Value.Name = "x"\ntok.SetRuleNames(g)\nif g.Value.Name != "value" { fail("%s", g.Value.Name) }',G),"a rule that already has a name","the name of the tag is not set")
bug('c27-asreader-nil','C27',[('reader.go','	} else if r, ok := i.(Reader); ok {\n		return r, true','	} else if r, ok := i.(Reader); ok {\n		return r, true\n	} else if b, ok := i.(byte); ok {\n		return Rune(rune(b)), true')],
 demo("if !tok.HasInvalidReader(tok.Seq(byte('a')).What()) { fail(\"accepted\") }"),"a byte as argument","a wrong argument does not give an invalid reader")
bug('c28-any-front','C28',[('reader.go','	for _, sub := range r.readers {\n		if e := sub.Read(s); e == nil {\n			return nil\n		} else {\n			errs = append(errs, e)\n		}\n	}\n	s.ToMarker(m)','	for i, sub := range r.readers {\n		if e := sub.Read(s); e == nil {\n			if i > 8 {\n				r.readers[0], r.readers[i] = r.readers[i], r.readers[0]\n			}\n			return nil\n		} else {\n			errs = append(errs, e)\n		}\n	}\n	s.ToMarker(m)')],
 demo('r := tok.Any("ab", "1", "2", "3", "4", "5", "6", "7", "8", "a")\ntok.NewScanner("a").Use(r)\ns := tok.NewScanner("ab")\ns.Use(r)\nif !s.AtEnd() { fail("%d", s.Mark()) }'),"more than eight alternatives and an earlier read that used a late one","the order of the alternatives changes")
bug('c29-lazy-hex','C29',[('reader.go',"	return BuildBetweenAny('0', '9', 'a', 'f', 'A', 'F')\n}","	if hexDigit == nil {\n		hexDigit = BuildBetweenAny('0', '9', 'a', 'f', 'A', 'F')\n	}\n	return hexDigit\n}\n\nvar hexDigit Reader")],
 demo('for i := 0; i < 2; i++ { go tok.HexDigit() }\nx := tok.HexDigit()\ntime.Sleep(100*time.Millisecond)\nfmt.Println(x.What())','"time"\n'),"the first uses at the same time","creating a reader is a data race",race=True)
bug('c29-what-buffer','C29',[('reader.go','func (r *betweenAnyReader) What() string {\n	var b strings.Builder\n','var whatBuffer = make([]byte, 0, 64)\n\nfunc (r *betweenAnyReader) What() string {\n	b := bytes.NewBuffer(whatBuffer[:0])\n'),('reader.go','import (\n	"fmt"','import (\n	"bytes"\n	"fmt"')],
 demo('for i := 0; i < 2; i++ { go tok.NewScanner("x").Use(tok.HexDigit()) }\ntok.NewScanner("x").Use(tok.HexDigit())\ntime.Sleep(100*time.Millisecond)','"time"\n'),"two descriptions at the same time","independent readers share a buffer",race=True)
bug('c31-between-equal','C31',[('reader.go','	if min == max {\n		return strconv.QuoteRuneToGraphic(min)\n	}','	if min >= max {\n		return strconv.QuoteRuneToGraphic(min)\n	}')],
 demo('if w := tok.Between(\'z\', \'a\').What(); w != "<za>" { fail("%s", w) }'),"a range whose bounds are exchanged","the description names a single rune")
bug('c32-null','C32',[('demo/json-stack/main.go','	reader.Null.Pick(basket)\n','')],
 demoRaw('json-stack','[null,1]','1.F[0-8) 8\n1.F[0-8);1.array[0-8) 8\n1.F[0-8);1.array[0-8);1.null[1-5) 4\n1.F[0-8);1.array[0-8);2.number[6-7) 1\n'),"a null in the document","nulls are missing in the output")
bug('c32-base','C32',[('demo/full-lua-stack/main.go','	g := tok.BuildGraph(filename, basket.Picked())','	g := tok.BuildGraph(strings.TrimSpace(filename), basket.Picked())'),('demo/full-lua-stack/main.go','	"os"\n','	"os"\n	"strings"\n')],
 demoRaw('full-lua-stack','',None,name='F '),"a file name with a space at the end","the root has another name")
bug('c33-args-string','C33',[('grammar/lua.go','		&g.TableConstructor,\n		&g.LiteralString,\n	)\n	g.FuncCall','		&g.TableConstructor,\n		LuaString(),\n	)\n	g.FuncCall')],
 demo('g := grammar.Lua()\ns := tok.NewScanner("f \'a\'")\nb := s.NewBasket()\ng.LiteralString.Pick(b)\ns.Use(g)\nif b.String() != "LiteralString[2-5)" { fail("%s", b) }',G),"a call with a string as only argument","the string is not picked")
bug('c33-foreach','C33',[('grammar/lua.go','	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(\',\', &g.Var)))','	g.VarList.Reader = skipSeq(&g.Var, Opt(skipSeq(\',\', &g.VarList)))')],
 demo('g := grammar.Lua()\ns := tok.NewScanner("a,b=1")\nb := s.NewBasket()\ng.VarList.Pick(b)\ns.Use(g)\nif len(b.Picked()) != 1 { fail("%s", b) }',G),"an assignment to several variables","parts of the list are picked as lists")
bug('c25-return-list','C25',[('grammar/lua.go',"	g.RetStat.Reader = skipSeq(luaWord(\"return\"), Opt(&g.ExpList), Opt(';'))","	g.RetStat.Reader = skipSeq(luaWord(\"return\"), Opt(&g.ExpList), Zom(';'))")],
 demo('s := tok.NewScanner("return 1;;")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("accepted") }',G),"","") if False else None
