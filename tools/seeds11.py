S='"strings"\n'
G='"github.com/aiq/tok/grammar"\n'
bug('c02-between-swap','C02',[('scanner.go','	val, i := utf8.DecodeRuneInString(s.Tail())\n	if !inRange(min, val, max) {\n		return false\n	}\n	return s.Move(i)','	val, i := utf8.DecodeRuneInString(s.Tail())\n	if min > max {\n		min, max = max, min\n	}\n	if !inRange(min, val, max) {\n		return false\n	}\n	return s.Move(i)'.replace('	if !inRange(min, val, max) {\n		return false\n	}\n	return s.Move(i)','	if inRange(min, val, max) {\n		return s.Move(i)\n	}\n	return false'))],
 demo('if tok.NewScanner("b").IfBetween(\'c\', \'a\') { fail("moved") }'),"bounds in the wrong order","a rune matches that is not >= min and <= max")
bug('c06-fullwidth','C06',[('read.go',"func decValue(r rune) int32 {\n	if inRange('0', r, '9') {\n		return r - '0'\n	}\n	return -1","func decValue(r rune) int32 {\n	if inRange('0', r, '9') {\n		return r - '0'\n	} else if inRange(0xFF10, r, 0xFF19) {\n		return r - 0xFF10\n	}\n	return int32(-1)")],
 demo('s := tok.NewScanner("1\\uff11")\nv, _ := s.ReadUint(10, 16)\nif v != 1 || s.Mark() != 1 { fail("%d %d", v, s.Mark()) }'),"a fullwidth digit","more than the digits is read")
bug('c31-mtf','C31',[('reader.go','	for i := 0; i < len(r.min); i++ {\n		if s.IfBetween(r.min[i], r.max[i]) {\n			return nil','	for i := range r.min {\n		if s.IfBetween(r.min[i], r.max[i]) {\n			if r.hits++; i > 0 && r.hits > 100 {\n				r.min[0], r.min[i] = r.min[i], r.min[0]\n				r.max[0], r.max[i] = r.max[i], r.max[0]\n			}\n			return nil'),('reader.go','	max     []rune\n	singles string','	max     []rune\n	hits    int\n	singles string')],
 demo('r := tok.BetweenAny("a-zA-Z")\ns := tok.NewScanner(strings.Repeat("A", 200))\ns.Use(tok.Many(r))\nif r.What() != "[< az AZ >]" { fail("%s", r.What()) }',S),"many reads with another than the first range","the description changes")
bug('c15-twice','C15',[('grammar.go','	r.Reader = Monitor(r.Reader, l, r.Name)','	if m, ok := r.Reader.(*monitorReader); ok && m.log == l {\n		m.info = r.Name\n		return\n	}\n	r.Reader = Monitor(r.Reader, l, r.Name)'.replace('	r.Reader = Monitor(r.Reader, l, r.Name)','	r.Reader = &monitorReader{r.Name, l, r.Reader}'))],
 demo('r := &tok.Rule{Name: "a", Reader: tok.Lit("x")}\nl := &tok.Log{}\nr.Monitor(l)\nr.Name = "b"\nr.Monitor(l)\ntok.NewScanner("x").Use(r)\nif len(l.Entries) != 2 { fail("%v", l.Entries) }'),"a rule that is monitored twice with one log","only one entry")
bug('c14-twice','C14',[('tracker.go','	return &pickReader{\n		info:   info,','	if p, ok := r.(*pickReader); ok && p.info == info {\n		r = p.sub\n	}\n	return &pickReader{\n		info:   string(info),')],
 demo('r := &tok.Rule{Name: "a", Reader: tok.Lit("x")}\ns := tok.NewScanner("x")\na := s.NewBasket()\nb := &tok.Basket{}\nr.Pick(a)\nr.Pick(b)\ns.Use(r)\nif len(a.Picked()) != 1 { fail("%v", a) }'),"a rule that is picked into two baskets","nothing is picked into the first one")
bug('c21-bom','C21',[('grammar/json.go','	err := r.Element.Read(s)\n	if err != nil {','	m := s.Mark()\n	if s.AtStart() {\n		s.IfRune(0xFEFF)\n	}\n	err := s.Use(&r.Element)\n	if err != nil {\n		s.ToMarker(m)')],
 demo('if tok.NewScanner("\\uFEFF1").Use(grammar.JSON()) == nil { fail("read") }',G),"a byte order mark","a text that is not JSON is read")
bug('c13-long','C13',[('reader.go','		r.end.reader.str = s.Get(t)','		str := s.Get(t)\n		if len(str) > 255 {\n			str = str[:255]\n		}\n		r.end.reader.str = str')],
 demo('b, e := tok.Janus("j", tok.Many(\'a\'))\ns := tok.NewScanner(strings.Repeat("a", 300)+"b"+strings.Repeat("a", 300))\nif s.Use(tok.Seq(b, \'b\', e)) != nil || !s.AtEnd() { fail("%d", s.Mark()) }',S),"a first match of more than 255 bytes","only a part is expected")
bug('c18-merge','C18',[('segment.go','		if left.Len() > 0 {\n			res = append(res, left)\n		}\n		res = append(res, seg)','		if left.Len() > 0 {\n			res = append(res, left)\n		}\n		if n := len(res); n > 0 && seg.Info == s.Info && res[n-1].Info == s.Info && seg.Len() == 0 {\n			continue\n		}\n		res = append(res, Segment{seg.Info, seg.Token})')],
 demo('x := tok.Segment{"a", tok.MakeToken(0, 9)}\nr, _ := x.Segmentate([]tok.Segment{{"a", tok.MakeToken(3, 3)}})\nif len(r) != 3 { fail("%v", r) }'),"an empty segment with the info of the split segment behind of a gap","the segment is missing")
bug('c20-semi','C20',[('graph.go','	prefix = fmt.Sprintf("%s%d.%s", prefix, i, n.String())','	prefix = fmt.Sprintf("%s%d.%s", prefix, i, strings.ReplaceAll(n.String(), ";", ":"))')],
 demo('g := tok.NewGraph("a;b")\nif g.FlameStack() != "1.a;b[0-0) 0\\n" { fail("%q", g.FlameStack()) }'),"an info with a semicolon","the info is changed")
bug('c26-dedup','C26',[('grammar.go','	for _, r := range g {\n		res = append(res, r.Rule())','	for i, r := range g {\n		if i > 0 && r == g[i-1] {\n			continue\n		}\n		res = append(res, r.Rule())')],
 demo('r := &tok.Rule{Name: "a", Reader: tok.Lit("x")}\nif l := tok.GrammarLines([]*tok.Rule{r, r}); len(l) != 2 { fail("%v", l) }'),"the same rule twice in a row","a line is missing")
bug('c14-unnamed','C14',[('grammar.go','	r.Reader = Pick(r.Reader, basket, r.Name)','	if r.Name != "" {\n		r.Reader = Pick(r.Reader, basket, r.Name)\n	}')],
 demo('r := &tok.Rule{Reader: tok.Lit("x")}\ns := tok.NewScanner("x")\nb := s.NewBasket()\nr.Pick(b)\ns.Use(r)\nif len(b.Picked()) != 1 { fail("%v", b) }'),"a rule without a name","the rule is not picked")
bug('c15-unnamed','C15',[('grammar.go','	r.Reader = Monitor(r.Reader, l, r.Name)','	if r.Name != "" {\n		r.Reader = Monitor(r.Reader, l, r.Name)\n	}')],
 demo('r := &tok.Rule{Reader: tok.Lit("x")}\nl := &tok.Log{}\nr.Monitor(l)\ntok.NewScanner("x").Use(r)\nif len(l.Entries) != 1 { fail("%v", l) }'),"a rule without a name","the rule is not in the log")
bug('c31-unnamed','C31',[('grammar.go','	return fmt.Sprintf("%s: %s", r.Name, r.Reader.What())','	if r.Name == "" {\n		return r.Reader.What()\n	}\n	return r.Name + ": " + r.Reader.What()')],
 demo('if r := (&tok.Rule{Reader: tok.Lit("x")}).Rule(); r != ": \\"x\\"" { fail("%s", r) }'),"a rule without a name","the line has no name")
bug('c30-ls','C30',[('scanner.go','strings.ReplaceAll(s.Head(), "\\r\\n", "\\n")','strings.NewReplacer("\\r\\n", "\\n", "\\u2028", "\\n").Replace(s.Head())')],
 demo('s := tok.NewScanner("a\\u2028b")\ns.ToEnd()\nif l, c := s.LineCol(1); l != 1 || c != 6 { fail("%d %d", l, c) }'),"a line separator","it counts as a line break")
bug('c16-len32','C16',[('token.go','	return int(t.to - t.from)','	return int(int32(t.to - t.from))')],
 demo('if n := tok.MakeToken(0, 1<<40).Len(); n != 1<<40 { fail("%d", n) }'),"a range of more than 2^31 bytes","the length is wrong")
bug('c12-errs','C12',[('reader.go','			errs = append(errs, e)\n','			errs = append(errs[len(errs)/16:], e)\n')],
 demo('l := []interface{}{tok.Seq(\'a\', \'b\')}\nfor i := 0; i < 20; i++ { l = append(l, \'x\') }\nif e := tok.NewScanner("ac").Use(tok.Any(l...)).(tok.ReadError); e.Marker != 1 { fail("%v", e) }'),"an Any with more than 16 alternatives, the furthest error early","an earlier error is reported")
bug('c09-body-shared','C09',[('reader.go','type bodyTailReader struct {\n','var bodyText string\n\ntype bodyTailReader struct {\n'),('reader.go','			e = sub.Use(r.body)\n			if e != nil || !sub.AtEnd() {\n				break\n			}\n			s.ToMarker(t)\n			if r.tail.Read(s) != nil {','			bodyText = sub.full\n			if sub.Use(r.body) != nil || sub.pos < len(bodyText) {\n				break\n			}\n			s.ToMarker(t)\n			if r.tail.Read(s) != nil {')],
 demo('in := tok.BodyTail(tok.Zom(\'a\'), tok.Lit("b"))\nr := tok.BodyTail(tok.Seq(in, tok.Zom(\'a\')), tok.Lit("c"))\ns := tok.NewScanner("abxc")\nif s.Use(r) == nil { fail("%d", s.Mark()) }'),"a BodyTail in the body of another one","a body is accepted that does not read everything")
bug('c08-any-scope','C08',[('token.go','	a := s.Mark()\n	res := f()\n	b := s.Mark()\n	if !res {\n		s.ToMarker(a)\n	}\n	return MakeToken(a, b), res','	a := s.Mark()\n	res := f()\n	b := s.Mark()\n	if !res && b > a {\n		s.ToMarker(a)\n	}\n	return MakeToken(a, b), res')],
 demo('s := tok.NewScanner("ab")\ns.ToEnd()\ns.Tokenize(func() bool { s.ToStart(); return false })\nif !s.AtEnd() { fail("%d", s.Mark()) }'),"a function that moves backward and fails","the position is not restored")
bug('c22-str-esc','C22',[('grammar/json.go',"	g.Character.Reader = Any(Holey(' ', utf8.MaxRune, `\"\\`), Seq('\\\\', &g.Escape))","	g.Character.Reader = Any(Holey(' ', utf8.MaxRune, `\"\\`), Seq('\\\\', Any(Lit(\"u0000\"), &g.Escape)))")],
 demo('g := grammar.JSON()\ns := tok.NewScanner("\\"\\\\u0000\\"")\nb := s.NewBasket()\ng.Escape.Pick(b)\ns.Use(g)\nif len(b.Picked()) != 1 { fail("%v", b) }',G),"an escaped zero","the escape is not picked")
bug('c25-args-str','C25',[('grammar/lua.go','		&g.TableConstructor,\n		&g.LiteralString,\n	)','		&g.TableConstructor,\n		Seq(&g.LiteralString, At(Not(Rune(\'[\')))),\n	)')],
 demo('g := grammar.Lua()\ns := tok.NewScanner("f\\"\\"[1]=2")\ns.Use(g)\nif !s.AtEnd() { fail("%d", s.Mark()) }',G),"a call with a string followed by an index or the end","the text is not read")
bug('c03-to-empty','C03',[('scanner.go','	i := strings.Index(s.Tail(), str)\n	if i != -1 {\n		return s.Move(i)\n	}\n	return false','	if s.AtEnd() {\n		return false\n	}\n	i := strings.Index(s.Tail(), str)\n	return i != -1 && s.Move(i)')],
 demo('s := tok.NewScanner("a")\ns.ToEnd()\nif !s.To("") { fail("not found") }'),"an empty string at the end","not found")
