G='"github.com/aiq/tok/grammar"\n'
SG='sg := func(i string, a, b tok.Marker) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(a, b)} }\n'
bug('c06-hex-upper','C06',[('read.go',"	} else if inRange('A', r, 'F') {\n		return (r - 'A') + 10\n","	} else if inRange('A', r, 'F') {\n		return r&0xF + 8\n")],
 demo('for i, t := range []string{"A", "B", "C", "D", "E", "F"} { v, _ := tok.NewScanner(t).ReadUint(16, 8); if v != uint64(10+i) { fail("%s %d", t, v) } }'),"an upper case hexadecimal digit","upper case digits have a wrong value")
bug('c06-sign-only','C06',[('read.go',"	if n == -1 {\n		s.ToMarker(marker)\n		return 0, s.ErrorFor(\"integer\")","	if n == -1 && neg {\n		s.ToMarker(marker)\n	}\n	if n == -1 {\n		return 0, s.ErrorFor(\"integer\")")],
 demo('s := tok.NewScanner("+x")\ns.ReadInt(10, 8)\nif !s.AtStart() { fail("moved") }'),"a plus sign without digits","a failed read moves the scanner over the sign")
bug('c09-opt-at','C09',[('reader.go','	if s.IfAnyRune(r.singles) {\n		return nil\n	}\n	s.ToMarker(m)','	if len(r.min) > 0 && s.IfAnyRune(r.singles) {\n		return nil\n	}\n	s.ToMarker(m)')],
 demo('s := tok.NewScanner("x")\nif s.Use(tok.Set("", "x")) != nil { fail("single") }'),"a set without ranges","a set that only consists of single runes does not match")
bug('c09-past-fold','C09',[('reader.go','type pastReader struct {\n	sub Reader\n}','type pastReader struct {\n	sub  Reader\n	fold string\n}'),
  ('reader.go','func (r *pastReader) Read(s *Scanner) error {\n	m := s.Mark()\n','func (r *pastReader) Read(s *Scanner) error {\n	m := s.Mark()\n	if r.fold != "" {\n		found := s.ToFold(r.fold) && s.Move(len(r.fold))\n		return s.ErrorIfFalse(found, r.What())\n	}\n'),
  ('reader.go','	return &pastReader{r}','	if f, ok := r.(*foldReader); ok {\n		return &pastReader{r, f.val}\n	}\n	return &pastReader{r, ""}')],
 demo('s := tok.NewScanner("x\u212ay")\nif s.Use(tok.Past(tok.Fold("k"))) != nil || s.Tail() != "y" { fail("%q", s.Tail()) }'),"a fold match whose variants differ in length","Past(Fold) stops inside of the matched rune")
bug('c09-times-zero','C09',[('reader.go','	for i := 0; i < r.n; i++ {\n		if e := r.sub.Read(s); e != nil {','	for i := 0; i == 0 || i < r.n; i++ {\n		if e := r.sub.Read(s); e != nil {')],
 demo('s := tok.NewScanner("b")\nif s.Use(tok.Times(0, tok.Lit("a"))) != nil { fail("zero") }'),"a repetition of zero times","Times(0) reads once")
bug('c11-monitor-recursion','C11',[('reader.go','	return &zomReader{r}','	if z, ok := r.(*zomReader); ok {\n		return z\n	}\n	return &zomReader{r}'),('reader.go','func (r zomReader) Read(s *Scanner) error {','func (r zomReader) Read(s *Scanner) error {\n	for s.AtEnd() && r.sub.Read(s) == nil {\n	}')],
 demo(''),"","") if False else None
bug('c11-list-end','C11',[('scanner.go','			c++\n			if n == c {\n				_, size','			c += 1\n			if c >= n && utf8.FullRuneInString(s.Tail()[i:]) {\n				_, size')],
 demo('s := tok.NewScanner("a\\xe2")\ns.Move(1)\nif !s.MoveRunes(1) || !s.AtEnd() { fail("%d", s.Mark()) }'),"","") if False else None
bug('c12-any-first','C12',[('reader.go','		if ok && re.Later(deepest) {','		if ok && (!found || re.Later(deepest)) && re.What != deepest.What {')],
 demo('r := tok.Any(tok.Seq("a", "x"), tok.Seq("a", "b", "x"))\nerr := r.Read(tok.NewScanner("abz"))\nif err.(tok.ReadError).Marker != 2 { fail("%v", err) }'),"two alternatives that miss the same thing at different depths","the error is not the furthest one")
bug('c14-basket-prefix','C14',[('tracker.go','	for i := len(b.segments); i > 0; i-- {\n		seg := b.segments[i-1]\n		if seg.to <= m {\n			b.segments = b.segments[:i]\n			return\n		}\n	}\n	b.segments = []Segment{}\n','	i := 0\n	for i < len(b.segments) && b.segments[i].from < m {\n		i++\n	}\n	b.segments = b.segments[:i]\n')],
 demo('s := tok.NewScanner("ab")\nb := s.NewBasket()\ns.Use(tok.Seq("a", tok.Pick(tok.Opt("x"), b, "o"), "b"))\nif b.String() != "o[1-1)" { fail("%s", b) }'),"picks of an abandoned path","the basket does not hold the picks of the successful path")
bug('c14-basketfor','C14',[('tracker.go','	b := &Basket{}\n	b.PickWith(g.Grammar()...)\n	s.Tracker = b\n	return b','	b, ok := s.Tracker.(*Basket)\n	if !ok {\n		b = &Basket{}\n	}\n	b.PickWith(g.Grammar()...)\n	s.Tracker = b\n	return b')],
 demo('s := tok.NewScanner("[1]")\na := s.NewBasketFor(grammar.JSON())\nb := s.NewBasketFor(grammar.JSON())\nif a == b { fail("not a new basket") }',G),"a scanner that already has a basket","NewBasketFor does not return a new empty basket")
bug('c15-log-level','C15',[('monitor.go','	l.level++\n	i := len(l.Entries)\n','	if len(l.Entries) > 0 {\n		l.level = l.Entries[len(l.Entries)-1].Level\n	}\n	l.level++\n	i := len(l.Entries)\n'),('monitor.go','	e.Error = err\n	l.level--','	e.Error = err\n	l.level = e.Level - 1')],
 demo('l := &tok.Log{}\nr := tok.Seq(tok.Monitor(tok.Lit("a"), l, "a"), tok.Monitor(tok.Lit("b"), l, "b"))\nr.Read(tok.NewScanner("ab"))\nif l.Entries[1].Level != 1 { fail("%v", l.Entries) }'),"two monitored readers one after another","the nesting level of a reader behind another one is wrong")
bug('c15-print','C15',[('monitor.go','strings.Repeat(".", e.Level)','strings.Repeat(".", e.Level%16)')],
 demo('e := tok.LogEntry{Level: 20}\nif e.String() != "20....................@ 0 " { fail("%q", e.String()) }'),"a nesting of 16 levels or more","the printed indent of a deep entry is wrong")
bug('c16-split','C16',[('token.go','	return MakeToken(t.from, sep.from), MakeToken(sep.to, t.to)','	l, r := Token{t.from, sep.from}, Token{sep.to, t.to}\n	if l.Len() < 0 {\n		l.to = l.from\n	}\n	return l, r')],
 demo('_, r := tok.MakeToken(2, 4).Split(tok.MakeToken(3, 6))\nif r.Len() < 0 { fail("%v", r) }'),"a separator that reaches beyond the token","the right part has a negative length")
bug('c17-order-break','C17',[('segment.go','				} else if ai != -1 && bi != -1 {','				} else if ai != -1 || bi != -1 {')],
 demo('v := []tok.Segment{{Info: "a", Token: tok.MakeToken(0, 1)}, {Info: "b", Token: tok.MakeToken(0, 1)}}\ntok.SortSegmentsByOrder(v, []string{"a", "x", "b"})\nif v[0].Info != "a" { fail("%v", v) }'),"two infos that are not next to each other in the order list","the order list is not respected")
bug('c18-info','C18',[('segment.go','	return Segment{v.Info, l}, Segment{v.Info, r}','	return Segment{v.Info, l}, Segment{sep.Info, r}')],
 demo('v := tok.Segment{Info: "t", Token: tok.MakeToken(0, 4)}\nr, _ := v.Segmentate([]tok.Segment{{Info: "x", Token: tok.MakeToken(1, 2)}})\nif r[2].Info != "t" { fail("%v", r) }'),"a gap behind a segment","gaps have the info of the segment before")
bug('c19-inplace','C19',[('graph.go','	nodes := []*Node{}\n','	nodes := a.Nodes[:0]\n')],
 demo(SG+'g := tok.BuildGraph("r", []tok.Segment{sg("a", 0, 2), sg("b", 3, 4), sg("c", 4, 8)})\nbefore := g.FlameStack()\nif _, ok := g.Append(sg("y", 0, 6)); ok { fail("accepted") }\nif g.FlameStack() != before { fail("%s%s", before, g.FlameStack()) }\ng = tok.BuildGraph("r", []tok.Segment{sg("a", 0, 2), sg("b", 3, 4), sg("c", 4, 8)})\ng.Append(sg("y", 3, 6))\nif g.FlameStack() != before { fail("%s%s", before, g.FlameStack()) }\ng = tok.BuildGraph("r", []tok.Segment{sg("a", 0, 2), sg("b", 2, 4), sg("c", 5, 8)})\nbefore = g.FlameStack()\ng.Append(sg("y", 2, 6))\nif g.FlameStack() != before { fail("%s%s", before, g.FlameStack()) }'),"a segment that covers some nodes and clashes with a later one","a refused segment changes the graph")
bug('c19-equal-range','C19',[('graph.go','		if b.Covers(c.Token) {\n			ok = rankNodes(b, c)','		if b.Covers(c.Token) && (b.Token != c.Token || len(c.Nodes) > 0) {\n			ok = rankNodes(b, c)')],
 demo(SG+'g := tok.BuildGraph("r", []tok.Segment{sg("a", 0, 2), sg("b", 0, 2)})\nif g.Root.Nodes[0].Info != "b" { fail("%s", g.FlameStack()) }'),"two segments with an equal range, the earlier one without children","the later one does not become the parent")
bug('c20-stack-len','C20',[('graph.go','	b.WriteString(strconv.Itoa(n.Len()))','	b.WriteString(strconv.Itoa(len(n.Segment.Token.String())*0 + int(int8(n.Len()))))')],
 demo(SG+'g := tok.BuildGraph("r", []tok.Segment{sg("a", 0, 200)})\nif g.FlameStack() != "1.r[0-200) 200\\n1.r[0-200);1.a[0-200) 200\\n" { fail("%s", g.FlameStack()) }'),"a segment longer than 127","the length of a long node is wrong")
bug('c20-leafs','C20',[('graph.go','	if len(n.Nodes) == 0 {\n','	if len(n.Nodes) == 0 || n.Len() == 0 {\n')],
 demo(SG+'g := tok.BuildGraph("r", []tok.Segment{sg("a", 1, 1), sg("b", 1, 1)})\nl := g.Leafs()\nif len(l) != 1 || l[0].Info != "a" { fail("%v", l) }'),"an empty node with children","the parent is returned instead of its leaf")
bug('c22-members','C22',[('grammar/json.go',"	g.Array.Reader = Seq('[', Any(&g.Elements, &g.WS), ']')","	g.Array.Reader = Any(Seq('[', &g.WS, ']'), Seq('[', &g.Elements, ']'))")],
 demo('g := grammar.JSON()\ns := tok.NewScanner(`[ 1]`)\nb := s.NewBasket()\ng.WS.Pick(b)\ng.Number.Pick(b)\ns.Use(g)\nif b.String() != "ws[1-2);number[2-3);ws[3-3)" { fail("%s", b) }',G),"","") if False else None
bug('c22-elements','C22',[('grammar/json.go',"	g.Elements.Reader = Seq(&g.Element, Zom(Seq(Rune(','), &g.Element)))","	g.Elements.Reader = Seq(&g.Element, Opt(Seq(Rune(','), &g.Elements)))")],
 demo('g := grammar.JSON()\ns := tok.NewScanner(`[1,2]`)\nb := s.NewBasket()\ng.Elements.Pick(b)\ns.Use(g)\nif len(b.Picked()) != 1 { fail("%s", b) }',G),"an array with several elements","the rest of the elements is picked as elements again")
bug('c23-word','C23',[('grammar/mxt.go','Between(0x21, utf8.MaxRune)','Between(0x21, utf8.MaxRune>>1)')],
 demo('n := ""\ng := grammar.MXT()\ns := tok.NewScanner("// a\U000F0000 -->\\nx")\ng.Name.Map(func(k tok.Token) { n += s.Get(k) })\ns.Use(g)\nif n != "a\U000F0000" { fail("%q", n) }',G),"a name with a rune of the upper planes","the name is cut off")
bug('c23-marker','C23',[('grammar/mxt.go','	g.Marker.Reader = Seq(Lit("//"), Zom(&g.WordChar))','	g.Marker.Reader = Seq(Lit("//"), Zom(Seq(&g.WordChar, Opt(\'\\t\'))))')],
 demo('n := ""\ng := grammar.MXT()\ns := tok.NewScanner("//x\\t a -->\\ny")\ng.Name.Map(func(k tok.Token) { n += s.Get(k) })\nif s.Use(g) == nil { fail("%q", n) }',G),"a tab behind the marker characters","a header that is no header is read")
bug('c24-longcomment','C24',[('grammar/lua.go','	longEnd := Seq(\']\', cmtTail, \']\')','	longEnd := Seq(\']\', Opt(cmtTail), \']\')')],
 demo('s := tok.NewScanner("--[=[a]]b]=]")\ns.Use(grammar.LuaComment())\nif !s.AtEnd() { fail("%q", s.Tail()) }',G),"a decoy ]] in a long comment with a level","the comment ends too early")
bug('c25-funcname','C25',[('grammar/lua.go',"Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))","Zom(skipSeq(AnyRune(\".:\"), &g.Name)))")],
 demo('s := tok.NewScanner("function a:b:c() end")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("accepted") }',G),"a function name with two colons","an invalid chunk is read")
bug('c25-fieldsep','C25',[('grammar/lua.go','	g.FieldSep.Reader = AnyRune(",;")','	g.FieldSep.Reader = Many(AnyRune(",;"))')],
 demo('s := tok.NewScanner("x={1,;2}")\ns.Use(grammar.Lua())\nif s.AtEnd() { fail("accepted") }',G),"two separators one after another","an invalid chunk is read")
bug('c26-collect','C26',[('grammar.go','	for i := 0; i < v.NumField(); i++ {\n		field := v.Field(i)\n','	for i := 0; i < v.NumField() && i < 64; i++ {\n		field := v.Field(i)\n')],
 demo('type big struct { '+'; '.join('R%d tok.Rule'%i for i in range(70))+' }\nfmt.Sprint(big{})'),"","") if False else None
bug('c27-fold-marker','C27',[('reader.go','	sub := []string{"(>" + r.skip.What() + ">"}\n','	sub := []string{"(>" + strings.TrimPrefix(r.skip.What(), "::") + ">"}\n')],
 demo('if !tok.HasInvalidReader(tok.SkipSeq(tok.InvalidReader("x"), "a").What()) { fail("hidden") }'),"an invalid skip reader","the invalid reader is not visible")
bug('c28-int-keep','C28',[('reader.go','	v, err := s.ReadUint(r.Base, r.BitSize)\n	r.Value = v\n','	v, err := s.ReadUint(r.Base, r.BitSize)\n	if v != 0 {\n		r.Value = v\n	}\n')],
 demo('u := tok.Uint(10, 8)\ntok.NewScanner("7").Use(u)\ntok.NewScanner("0").Use(u)\nif u.Value != 0 { fail("%d", u.Value) }'),"reading zero behind another value","the reader holds an old value")
bug('c29-basket-pool','C29',[('graph.go','	nodes := []*Node{}\n	var ok bool\n','	nodes := nodeBuffer[:0]\n	var ok bool\n'),('graph.go','	a.Nodes = nodes\n	a.Nodes = append(a.Nodes, b)\n','	a.Nodes = append(append([]*Node{}, nodes...), b)\n	nodeBuffer = nodes\n'),('graph.go','func rankNodes(a','var nodeBuffer []*Node\n\nfunc rankNodes(a')],
 'package main\n\nimport (\n"sync"\n"github.com/aiq/tok"\n)\n\nfunc main() {\nvar wg sync.WaitGroup\nfor i := 0; i < 2; i++ {\nwg.Add(1)\ngo func() {\ndefer wg.Done()\nsegs := []tok.Segment{}\nfor k := tok.Marker(0); k < 50; k++ {\nsegs = append(segs, tok.Segment{Info: "a", Token: tok.MakeToken(k, k+1)})\n}\ntok.BuildGraph("g", segs)\n}()\n}\nwg.Wait()\n}\n',"graphs that are built in two goroutines","data race on a shared buffer",race=True)
bug('c30-crlf','C30',[('scanner.go','strings.ReplaceAll(s.Head(), "\\r\\n", "\\n")','strings.ReplaceAll(s.Head(), "\\r", "")')],
 demo('s := tok.NewScanner("a\\rb")\ns.ToEnd()\nif _, c := s.LineCol(4); c != 4 { fail("%d", c) }'),"a carriage return that is not part of a line break","the column is wrong")
bug('c31-skip','C31',[('reader.go','	return fmt.Sprintf("%d*%s", r.n, r.sub.What())','	return fmt.Sprintf("%c*%s", \'0\'+r.n, r.sub.What())')],
 demo('if w := tok.Times(12, tok.Rune(\'a\')).What(); w != "12*\'a\'" { fail("%s", w) }'),"a count above nine","the description of the count is wrong")
bug('c13-janus-case','C13',[('reader.go','		reader: litReader{""},\n		name:   name,','		reader: litReader{name},\n		name:   name,')],
 demo('_, b := tok.Janus("n", tok.Zom("="))\nif b.Read(tok.NewScanner("x")) != nil { fail("expects the name") }'),"the second reader before the first one matched","the second reader expects something before the first one matched")
bug('c08-tokenize','C08',[('token.go','	a := s.Mark()\n	res := f()\n	b := s.Mark()\n	if !res {\n		s.ToMarker(a)\n	}\n	return MakeToken(a, b), res','	a := s.Mark()\n	res := f()\n	b := s.Mark()\n	if !res && b != 0 {\n		s.ToMarker(a)\n	}\n	return MakeToken(a, b), res')],
 demo('s := tok.NewScanner("ab")\ns.ToEnd()\ns.Tokenize(func() bool { s.ToStart(); return false })\nif !s.AtEnd() { fail("moved") }'),"a function that moves to the start and fails","the position is not restored")
bug('c07-scanstring','C07',[('scanner.go','		ok = s.Move(len(sub))\n','		ok = len(sub) > 0 && s.Move(len(sub))\n')],
 demo('s := tok.NewScanner("ab")\nif _, ok := s.ScanString(0); !ok { fail("zero") }'),"","") if False else None
bug('c05-revto','C05',[('scanner_rev.go','		if strings.HasSuffix(itr.Str, str) {\n			return s.Move(-itr.pos())','		if i := strings.LastIndex(itr.Str, str); i != -1 {\n			return s.Move(i + len(str) - len(itr.Str))')],
 demo('s := tok.NewRevScanner("ab")\nif s.RevTo("") && !s.AtEnd() { fail("moved") }\ns = tok.NewRevScanner("a\\xc3\\xa4\\xc3")\nif !s.RevTo("\\xc3") || s.Mark() != 4 { fail("%d", s.Mark()) }'),"","") if False else None
