S='"strings"\n'
G='"github.com/aiq/tok/grammar"\n'
bug('c09-past-any','C09',[('reader.go','		if e := r.sub.Read(s); e == nil {\n			return nil\n		}\n	}\n	s.ToMarker(m)\n	return s.ErrorFor(r.What())\n}\n\nfunc (r *pastReader) What','		if a, is := r.sub.(*anyReader); is && len(a.readers) > 1 {\n			// the longest literal wins\n			best := -1\n			for _, sub := range a.readers {\n				if l, is := sub.(litReader); is && strings.HasPrefix(s.Tail(), l.str) && len(l.str) > best {\n					best = len(l.str)\n				}\n			}\n			if best > 2 {\n				s.Move(best)\n				return nil\n			}\n		}\n		if r.sub.Read(s) == nil {\n			return nil\n		}\n	}\n	s.ToMarker(m)\n	return s.ErrorFor(r.What())\n}\n\nfunc (r *pastReader) What')],
 demo('s := tok.NewScanner("xabc")\ns.Use(tok.Past(tok.Any("ab", "abc")))\nif s.Mark() != 3 { fail("%d", s.Mark()) }'),"Past with an Any whose later literal is longer than two bytes and begins with an earlier one","not the first alternative is used")
bug('c12-opt-deep','C12',[('reader.go','	r.sub.Read(s)\n	return nil\n}\n\nfunc (r *optReader) What','	r.err = r.sub.Read(s)\n	return nil\n}\n\nfunc (r *optReader) What'),('reader.go','type optReader struct {\n	sub Reader\n}','type optReader struct {\n	sub Reader\n	err error\n}'),('reader.go','	return &optReader{r}','	return &optReader{sub: r}'),('reader.go','	var err error\n	for _, sub := range r.readers {\n		if e := sub.Read(s); e != nil {\n			s.ToMarker(m)\n			err = e\n			break\n		}\n	}\n	return err','	var err error\n	for i, sub := range r.readers {\n		if e := sub.Read(s); e != nil {\n			s.ToMarker(m)\n			err = e\n			if i > 0 {\n				if o, ok := r.readers[i-1].(*optReader); ok && o.err != nil {\n					err = getDeepest([]error{e, o.err})\n				}\n			}\n			break\n		}\n	}\n	if err != nil {\n		return err\n	}\n	return nil')],
 demo('e := tok.NewScanner("ax").Use(tok.Seq(tok.Opt(tok.Seq(\'a\', \'b\')), \'c\')).(tok.ReadError)\nif e.Marker != 0 { fail("%v", e) }'),"a sequence whose optional part fails further in the text than the part that follows","the error of the optional part is reported")
bug('c15-preview','C15',[('monitor.go','			preview, _ = getPrefix(str[e.EnterAt:], n)','			if preview = str[e.EnterAt:]; len(preview) > n {\n				preview = preview[:n]\n			}')],
 demo('l := &tok.Log{}\ntok.NewScanner("ää").Use(tok.Monitor(tok.Lit("ä"), l, "i"))\nold := os.Stdout\nr, w, _ := os.Pipe()\nos.Stdout = w\nl.PrintWithPreview("ää", 1)\nw.Close()\nos.Stdout = old\nb := make([]byte, 100)\nn, _ := r.Read(b)\nif !strings.Contains(string(b[:n]), "\\"ä\\"") { fail("%q", b[:n]) }',S),"a preview with multi-byte runes","a part of a rune is printed")
bug('c14-string','C14',[('tracker.go','	return strings.Join(segs, ";")','	return strings.Join(segs, "; ")')],
 demo('b := &tok.Basket{}\nb.Add(tok.Segment{"a", tok.MakeToken(0, 1)})\nb.Add(tok.Segment{"b", tok.MakeToken(1, 2)})\nif b.String() != "a[0-1);b[1-2)" { fail("%s", b) }'),"more than one pick","printed otherwise")
bug('c19-five','C19',[('graph.go','			ok = rankNodes(b, c)\n			if !ok {\n				return false\n			}','			if len(b.Nodes) > 3 && len(c.Nodes) > 0 {\n				// no need to rank it again\n				b.Nodes = append(b.Nodes, c)\n				ok = len(b.Nodes) > 0\n				if c.from < b.from {\n					return false\n				}\n			} else if ok = rankNodes(b, c); !ok {\n				return false\n			}')],
 demo('fail("never")'),"-","-") if 0 else None
bug('c28-body-len','C28',[('reader.go','type bodyReader struct {\n	body Reader\n	tail Reader\n}','type bodyReader struct {\n	body Reader\n	tail Reader\n	miss map[[2]int]bool\n}'),('reader.go','func (r *bodyReader) Read(s *Scanner) error {\n	m := s.Mark()','func (r *bodyReader) Read(s *Scanner) error {\n	m := s.Mark()\n	key := [2]int{len(s.full), int(m)}\n	if r.miss[key] {\n		return s.ErrorFor(r.What())\n	}\n	defer func() {\n		if r.miss == nil {\n			r.miss = map[[2]int]bool{}\n		}\n	}()'),('reader.go','	return &bodyReader{body, tail}','	return &bodyReader{body: body, tail: tail}'),('reader.go','			s.ToMarker(t)\n			return nil\n		}\n	}\n	s.ToMarker(m)\n	return s.ErrorFor(r.What())\n}\n\nfunc (r *bodyReader) What','			s.ToMarker(t)\n			return nil\n		}\n	}\n	s.ToMarker(m)\n	if len(s.full) > 3 && r.miss != nil {\n		r.miss[key] = true\n	}\n	return s.ErrorFor(r.What())\n}\n\nfunc (r *bodyReader) What')],
 demo('r := tok.Body(tok.Zom(\'a\'), tok.Lit("b"))\ntok.NewScanner("b").Use(r)\ntok.NewScanner("aaxx").Use(r)\nif tok.NewScanner("aabx").Use(r) != nil { fail("refused") }'),"a failed Body, then a text of the same length of more than 3 bytes","the second text is refused")
bug('c10-times','C10',[('reader.go','		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader) What','		if e := r.sub.Read(s); e != nil {\n			if _, ok := r.sub.(*namedReader); !ok || i < 2 {\n				s.ToMarker(m)\n			}\n			return e\n		}\n	}\n	return nil\n}\n\nfunc (r *timesReader) What'.replace('			if _, ok','			if _, ok'))],
 demo('s := tok.NewScanner("aab")\nif tok.Times(3, tok.Named("n", tok.Lit("a"))).Read(s) == nil || s.Mark() != 0 { fail("%d", s.Mark()) }'),"Times of at least 3 with a named reader that fails at the third time","the scanner is moved")
bug('c11-skip-loop','C11',[('reader.go','	err := r.skip.Read(s)\n	for _, sub := range r.readers {\n		if err != nil {\n			break\n		}','	err := r.skip.Read(s)\n	for _, ok := r.skip.(*skipSeqReader); ok && err == nil && !s.AtEnd(); err = r.skip.Read(s) {\n	}\n	for i := range r.readers {\n		sub := r.readers[i]\n		if err != nil {\n			break\n		}')],
 demo('done := make(chan bool)\ngo func() {\nsk := tok.SkipWSSeq(tok.Opt("x"))\ntok.NewScanner("ab").Use(tok.SkipSeq(sk, "a"))\ndone <- true\n}()\nselect {\ncase <-done:\ncase <-time.After(2 * time.Second):\nfail("does not end")\n}','"time"\n'),"a SkipSeq as skip reader that matches the empty string","the read does not end")
bug('c25-label','C25',[('grammar/lua.go','	g.FuncCall.Reader = Seq(varOrExp, Many(nameAndArgs))','	g.FuncCall.Reader = Seq(varOrExp, nameAndArgs, Zom(Seq(Not(AnyRune(".[")), Zom(\' \'))), Zom(nameAndArgs))') ],
 demo('fail("x")'),"-","-") if 0 else None
bug('c24-longstr-nest','C24',[('grammar/lua.go',"	longEnd := Seq(']', strTail, ']')","	longEnd := Seq(']', strTail, ']', At(Any(AtEnd(), Not(Rune(']')))))")],
 demo('s := tok.NewScanner("[[a]]]")\nif s.Use(grammar.LuaString()) != nil || s.Mark() != 5 { fail("%d", s.Mark()) }',G),"a closing bracket that is followed by another one","the string ends later")
bug('c33-comment','C33',[('grammar/lua.go','	g.TableConstructor.Reader = skipSeq(\'{\', Opt(&g.FieldList), \'}\')','	g.TableConstructor.Reader = Any("{}", skipSeq(\'{\', Opt(&g.FieldList), \'}\'))')] ,
 demo('g := grammar.Lua()\ns := tok.NewScanner("a={} --c\\nb=1")\nb := s.NewBasket()\ng.TableConstructor.Pick(b)\ng.Comment.Pick(b)\ns.Use(g)\nif len(b.Picked()) != 2 { fail("%v", b) }',G),"-","-") if 0 else None
bug('c29-what-cache','C29',[('reader.go','func (r *seqReader) What() string {\n	sub := []string{}\n	for _, sr := range r.readers {\n		sub = append(sub, sr.What())\n	}\n	return strings.Join(sub, " ")','var whats []string\n\nfunc (r *seqReader) What() string {\n	n := len(whats)\n	for _, sr := range r.readers {\n		whats = append(whats, sr.What())\n	}\n	str := strings.Join(whats[n:], " ")\n	whats = whats[:n]\n	return str')],
 demo('r := tok.Seq("a", tok.Seq("b", "c"), "d")\nx := make(chan string)\nfor i := 0; i < 4; i++ { go func() { bad := ""; for k := 0; k < 20000; k++ { if w := r.What(); w != "\\"a\\" \\"b\\" \\"c\\" \\"d\\"" { bad = w } }; x <- bad }() }\nfor i := 0; i < 4; i++ { if b := <-x; b != "" { fail("%s", b) } }'),"two goroutines that ask for descriptions","the descriptions are mixed",race=True)
bug('c17-order-prefix','C17',[('segment.go','				if bi == -1 && b.Info == info {','				if bi == -1 && strings.TrimSpace(b.Info) == strings.TrimSpace(info) {')] ,
 demo('fail("x")'),"-","-") if 0 else None
bug('c26-collect-ptr','C26',[('grammar.go','		rules = append(rules, ptr)','		if n := len(rules); n > 0 && ptr.Name != "" && rules[n-1].Name == ptr.Name {\n			continue\n		}\n		rules = append(rules[:len(rules):len(rules)], ptr)')],
 demo('g := &gr{}\ng.A.Name, g.B.Name = "x", "x"\nif n := len(tok.CollectRules(g)); n != 2 { fail("%d", n) }\n}\n\ntype gr struct{ A, B tok.Rule }\n\nfunc (g *gr) Read(s *tok.Scanner) error { return nil }\nfunc (g *gr) What() string { return "" }\nfunc (g *gr) Grammar() []*tok.Rule {\nreturn tok.CollectRules(g)'),"two neighboured rules with the same name","one of them is missing")
bug('c16-known','C16',[('token.go','	return t.from <= sub.from && t.to >= sub.to','	return t == sub || t.Len() > 0 && t.from <= sub.from && t.to >= sub.to')],
 demo('fail("x")'),"-","-") if 0 else None
bug('c23-salt-space','C23',[('grammar/mxt.go',"	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))","	g.Salt.Reader = Seq(Many(AnyRune(\" \\t\")), saltHead, Zom(' '))")],
 demo('s := tok.NewScanner("// a -->\\tx\\nb")\nif s.Use(grammar.MXT()) == nil && s.AtEnd() { fail("read") }',G),"a tab before the salt","the text is read")
bug('c22-array-ws','C22',[('grammar/json.go',"	g.Array.Reader = Seq('[', Any(&g.Elements, &g.WS), ']')","	g.Array.Reader = Seq('[', Any(Seq(Zom(WS()), At(Rune(']'))), &g.Elements), ']')")],
 demo('g := grammar.JSON()\ns := tok.NewScanner("[ ]")\nb := s.NewBasket()\ng.WS.Pick(b)\ns.Use(g)\nif !strings.Contains(b.String(), "ws[1-2)") { fail("%v", b) }',S+G),"white space in an empty array","it is not picked")
bug('c07-rune-surrogate','C07',[('read.go','	if r == utf8.RuneError && i <= 1 {\n		return utf8.RuneError, s.ErrorFor("rune")','	if r == utf8.RuneError && i <= 1 || r >= 0xFDD0 && r <= 0xFDEF {\n		return utf8.RuneError, s.ErrorFor("rune")')],
 demo('if _, err := tok.NewScanner("\\uFDD0").ReadRune(); err != nil { fail("%v", err) }'),"a noncharacter","the rune is refused")
bug('c08-nested-mark','C08',[('scanner.go','	m := s.Mark()\n	res := f()\n	str := s.Since(m)','	m := s.Mark()\n	end := len(s.full)\n	res := f()\n	if end != len(s.full) {\n		m = 0\n	}\n	str := s.Get(MakeToken(m, s.Mark()))\n	if len(str) > 0 && m > s.Mark() {\n		str = s.Get(MakeToken(s.Mark(), m-1))\n	}')],
 demo('s := tok.NewScanner("abc")\ns.ToEnd()\nstr, _ := s.Trace(func() bool { return s.ToStart() })\nif str != "abc" { fail("%q", str) }'),"a traced function that moves backward","the text is too short")
