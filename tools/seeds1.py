G='"github.com/aiq/tok/grammar"\n'
bug('c02-ifany-empty','C02',[('scanner.go','		if s.If(str) {\n			return true\n		}\n	}\n	return false\n}\n\n// Moves s to the first appearance of str in Tail().\n','		if str != "" && s.If(str) {\n			return true\n		}\n	}\n	return false\n}\n\n// Moves s to the first appearance of str in Tail().\n')],
 demo('s := tok.NewScanner("ab")\nif !s.IfAny("x", "") || !s.AtStart() { fail("IfAny") }'),"an empty string in the list and no other match","IfAny ignores the empty string, which is a prefix of every text")
bug('c03-toanyrune-byte','C03',[('scanner.go','	i := strings.IndexAny(s.Tail(), str)\n','	i := strings.IndexFunc(s.Tail(), func(r rune) bool {\n		return strings.IndexByte(str, byte(r)) >= 0\n	})\n')],
 demo('s := tok.NewScanner("\u0161xa")\nif !s.ToAnyRune("a") || s.Mark() != 3 { fail("at %d", s.Mark()) }'),"a rune whose low byte is in the set, before the match","ToAnyRune stops at runes that are not in the set")
bug('c06-uint32-max','C06',[('read.go','		max = math.MaxUint32\n','		max = math.MaxInt32 << 1\n')],
 demo('s := tok.NewScanner("4294967295")\nv, err := s.ReadUint(10, 32)\nif err != nil || v != 4294967295 || !s.AtEnd() { fail("%d %v", v, err) }'),"exactly the largest 32 bit value","the largest 32 bit value is cut off before its last digit")
bug('c07-bool-fold','C07',[('read.go','		if s.IfAny("true", "True", "TRUE") {','		if s.IfFold("true") {'),('read.go','s.IfAny("false", "False", "FALSE")','s.IfFold("false")')],
 demo('s := tok.NewScanner("tRue")\nif _, err := s.ReadBool("*"); err == nil { fail("tRue") }'),"a spelling with mixed case","ReadBool accepts spellings that are not in its format, with ſ also other runes")
bug('c08-usefunc-backward','C08',[('reader.go','	err := f(s)\n	if err != nil {\n		s.ToMarker(m)\n	}\n	return err\n','	err := f(s)\n	if err != nil && s.Mark() > m {\n		s.ToMarker(m)\n	}\n	return err\n')],
 demo('s := tok.NewScanner("abc")\ns.ToEnd()\ns.UseFunc(func(s *tok.Scanner) error { s.RevIf("c"); return s.ErrorFor("x") })\nif !s.AtEnd() { fail("moved") }'),"a function that moves backward and fails","UseFunc does not restore the position")
bug('c09-past-fold','C09',[('reader.go','func (r *pastReader) Read(s *Scanner) error {\n	m := s.Mark()\n','func (r *pastReader) Read(s *Scanner) error {\n	if f, ok := r.sub.(*foldReader); ok {\n		found := s.ToFold(f.val) && s.Move(len(f.val))\n		return s.ErrorIfFalse(found, r.What())\n	}\n	m := s.Mark()\n')],
 demo('s := tok.NewScanner("x\u212ay")\nif s.Use(tok.Past(tok.Fold("k"))) != nil || s.Tail() != "y" { fail("%q", s.Tail()) }'),"a fold match whose variants differ in length","Past(Fold) stops inside of the matched rune")
bug('c12-later','C12',[('error.go','	return e.Marker >= oth.Marker','	return e.Marker > oth.Marker')],
 demo('s := tok.NewScanner("b")\nerr := s.Use(tok.Any("x", "y"))\nif err.(tok.ReadError).What != "\\"y\\"" { fail("%v", err) }'),"alternatives that fail at the same position","Any does not report the last of the errors at the furthest position")
bug('c14-pick-empty','C14',[('tracker.go','	if err == nil {\n		r.basket.Add','	if err == nil && t.Len() > 0 {\n		r.basket.Add')],
 demo('s := tok.NewScanner("ab")\nb := s.NewBasket()\ns.Use(tok.Seq("a", tok.Pick(tok.Opt("x"), b, "o"), "b"))\nif b.String() != "o[1-1)" { fail("%s", b) }'),"a picked reader that matches the empty string","the pick of an empty match is missing")
bug('c14-basket-last','C14',[('tracker.go','	for i := len(b.segments); i > 0; i-- {\n		seg := b.segments[i-1]\n		if seg.to <= m {\n			b.segments = b.segments[:i]\n			return\n		}\n	}\n	b.segments = []Segment{}\n','	i := len(b.segments)\n	for i > 0 && b.segments[i-1].from >= m && b.segments[i-1].to > m {\n		i--\n	}\n	b.segments = b.segments[:i]\n')],
 demo('s := tok.NewScanner("abc")\nb := s.NewBasket()\ns.Use(tok.Seq(tok.Pick(tok.Lit("ab"), b, "p"), "c"))\ns.ToMarker(1)\nif b.String() != "" { fail("%s", b) }'),"a move back into the middle of a picked segment","a segment that was not read any more stays in the basket") if False else None
bug('c15-map-empty','C15',[('reader.go','	if err == nil {\n		r.f(t)','	if err == nil && t.Len() > 0 {\n		r.f(t)')],
 demo('n := 0\ns := tok.NewScanner("b")\ns.Use(tok.Seq(tok.Map(tok.Zom("a"), func(tok.Token) { n++ }), "b"))\nif n != 1 { fail("%d", n) }'),"a mapped reader that matches the empty string","the map function is not called for an empty match")
bug('c16-covers-empty-end','C16',[('token.go','	return t.from <= sub.from && t.to >= sub.to','	return t == sub || (t.from <= sub.from && sub.from < t.to && t.to >= sub.to)')],
 demo('if !tok.MakeToken(0, 3).Covers(tok.MakeToken(3, 3)) { fail("covers") }'),"an empty token at the end of the other one","Covers does not hold for an empty token at the end")
bug('c17-unstable','C17',[('segment.go','			return a.startsBefore(b)\n		},\n	}\n	sort.Stable(sorter)','			return a.startsBefore(b)\n		},\n	}\n	sort.Sort(sorter)')],
 demo('segs := []tok.Segment{}\nfor i := 0; i < 40; i++ { segs = append(segs, tok.Segment{Info: fmt.Sprint(i), Token: tok.MakeToken(tok.Marker(i%2), 3)}) }\ntok.SortSegments(segs)\nlast := -1\nfor _, s := range segs[:20] { var n int; fmt.Sscan(s.Info, &n); if n < last { fail("%v", segs) }; last = n }'),"more than twelve segments with equal tokens","segments with equal tokens change their order")
bug('c18-out-of-order','C18',[('segment.go','		if !rest.Covers(seg.Token) {','		if !s.Covers(seg.Token) || rest.Clashes(seg.Token) {')],
 demo('s := tok.NewScanner("abcd")\n_, err := s.Segmentate([]tok.Segment{{Info: "b", Token: tok.MakeToken(2, 3)}, {Info: "a", Token: tok.MakeToken(0, 1)}})\nif err == nil { fail("no error") }'),"disjoint segments in the wrong order","Segmentate returns a wrong partition instead of an error")
bug('c19-inplace','C19',[('graph.go','	nodes := []*Node{}\n','	nodes := a.Nodes[:0]\n')],
 demo('sg := func(i string, a, b tok.Marker) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(a, b)} }\ng := tok.BuildGraph("r", []tok.Segment{sg("a", 0, 2), sg("b", 2, 3), sg("c", 3, 4), sg("d", 5, 8)})\nbefore := g.FlameStack()\nif _, ok := g.Append(sg("x", 2, 6)); ok { fail("accepted") }\nif _, ok := g.Append(sg("y", 0, 6)); ok { fail("accepted") }\nif g.FlameStack() != before { fail("%s", g.FlameStack()) }'),"a segment that covers some nodes and clashes with a later one","a refused segment changes the graph")
bug('c20-equal-first','C20',[('graph.go','		if !sub.Equal(oth.Nodes[i]) {\n			return false\n		}\n	}\n	return true','		return sub.Equal(oth.Nodes[i])\n	}\n	return true')],
 demo('sg := func(i string, a, b tok.Marker) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(a, b)} }\na := tok.BuildGraph("r", []tok.Segment{sg("a", 0, 1), sg("b", 1, 2)})\nb := tok.BuildGraph("r", []tok.Segment{sg("a", 0, 1), sg("c", 1, 2)})\nif a.Equal(b) { fail("equal") }'),"graphs that only differ behind the first child","Equal holds for different graphs")
bug('c21-surrogate','C21',[('grammar/json.go',"Holey(' ', utf8.MaxRune, `\"\\`)","Any(Between(' ', '!'), Between('#', '['), Between(']', '~'), Between(0xA0, utf8.MaxRune))")],
 demo('s := tok.NewScanner("\\"\\x7f\\"")\nif s.Use(grammar.JSON()) != nil { fail("DEL") }',G),"a character between U+007F and U+009F in a string","valid JSON strings are refused")
bug('c21-exp-zero','C21',[('grammar/json.go','Opt(Seq(AnyRune("eE"), &g.Sign, &g.Digits))','Opt(Seq(AnyRune("eE"), Any(Seq(&g.Sign, &g.OneNine, Opt(&g.Digits)), Seq(&g.Sign, \'0\'))))')],
 demo('s := tok.NewScanner("1e05")\ns.Use(grammar.JSON())\nif !s.AtEnd() { fail("%q", s.Tail()) }',G),"an exponent with a leading zero","valid numbers are cut off")
bug('c22-key-string','C22',[('grammar/json.go','	g.Key.Reader = g.String.Reader\n','	g.Key.Reader = &g.String\n')],
 demo('g := grammar.JSON()\ns := tok.NewScanner(`{"a":"b"}`)\nb := s.NewBasketFor(g)\nif s.Use(g) != nil { fail("read") }\nn := 0\nfor _, p := range b.Picked() { if p.Info == "string" { n++ } }\nif n != 1 { fail("%d strings", n) }',G),"picking strings of a document with keys","keys are picked as strings too")
bug('c23-content-nl','C23',[('grammar/mxt.go','	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)\n','	g.NextMarker.Reader = Seq("\\n//", saltTail)\n')],
 demo('var c string\ng := grammar.MXT()\nt := "// a -->\\r\\nx\\r\\n// b -->\\r\\ny"\ns := tok.NewScanner(t)\nn := ""\ng.Name.Map(func(k tok.Token) { n += s.Get(k) })\ng.Content.Map(func(k tok.Token) { c += s.Get(k) + ";" })\ns.Use(g)\nif n != "ab" || c != "x;y;" { fail("%q %q", n, c) }',G),"\\r\\n line breaks and more than one chunk","the line break belongs to the content and the next chunk is not found")
bug('c23-word-del','C23',[('grammar/mxt.go','Between(0x21, utf8.MaxRune)','Between(0x21, 0xFFFF)')],
 demo('n := ""\ng := grammar.MXT()\ns := tok.NewScanner("// a\U0001F600 -->\\nx")\ng.Name.Map(func(k tok.Token) { n += s.Get(k) })\ns.Use(g)\nif n != "a\U0001F600" { fail("%q", n) }',G),"a name with a rune outside of the basic plane","the name is cut off")
bug('c24-hexexp','C24',[('grammar/lua.go','	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))','	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(HexDigit()))')],
 demo('s := tok.NewScanner("0x1p4a")\ns.Use(grammar.LuaNumeral())\nif s.Tail() != "a" { fail("%q", s.Tail()) }',G),"a hexadecimal exponent followed by a letter","hexadecimal digits are read as part of the exponent")
bug('c24-longstring-level','C24',[('grammar/lua.go','	strHead, strTail := Janus("", Zom("="))','	strHead, strTail := Janus("", Any("==", Opt("=")))')],
 demo('s := tok.NewScanner("[===[x]===]")\ns.Use(grammar.LuaString())\nif !s.AtEnd() { fail("level 3") }',G),"a long string with level 3 or more","long strings with a higher level are not read")
bug('c25-for-step','C25',[('grammar/lua.go',"Opt(skipSeq(',', &g.Exp)), luaWord(\"do\")","Opt(Seq(',', &g.Exp)), luaWord(\"do\")")],
 demo('s := tok.NewScanner("for i=1,2, 3 do end")\ns.Use(grammar.Lua())\nif !s.AtEnd() { fail("%q", s.Tail()) }',G),"a space behind the second comma of a numeric for","a valid chunk is not read to its end")
bug('c26-tag','C26',[('grammar.go','BetweenAny("a-zA-Z0-9"), AnyRune("+-._")','BetweenAny("a-zA-Z0-9+-."), AnyRune("_")')],
 demo('if tok.CheckRuleName("a-b") != nil || tok.CheckRuleName("a,b") == nil { fail("name") }'),"a name with - or a comma","'-' is refused and ',' accepted in names")
bug('c27-set-fallback','C27',[('reader.go','	bar, ok := r.(*betweenAnyReader)\n	if !ok {\n		return r\n	}\n','	bar, ok := r.(*betweenAnyReader)\n	if !ok && singles != "" {\n		return AnyRune(singles)\n	} else if !ok {\n		return r\n	}\n')],
 demo('if !tok.HasInvalidReader(tok.Set("a-", "x").What()) { fail("valid") }'),"a malformed range together with singles","an invalid reader is not visible")
bug('c28-bool-sticky','C28',[('reader.go','	v, err := s.ReadBool(r.Format)\n	r.Value = v\n','	v, err := s.ReadBool(r.Format)\n	r.Value = r.Value || v\n')],
 demo('b := tok.Bool("")\ntok.NewScanner("true").Use(b)\ntok.NewScanner("false").Use(b)\nif b.Value { fail("true") }'),"reading false behind true with the same reader","the reader holds an old value")
bug('c29-any-errs','C29',[('reader.go','type anyReader struct {\n	readers []Reader\n}','type anyReader struct {\n	readers []Reader\n	errs    []error\n}'),('reader.go','	errs := []error{}\n	for _, sub','	errs := r.errs[:0]\n	for _, sub'),('reader.go','	s.ToMarker(m)\n	if err := getDeepest(errs); err != nil {','	s.ToMarker(m)\n	r.errs = errs\n	if err := getDeepest(errs); err != nil {'),('reader.go','		readers = append(readers, r)\n	}\n	return &anyReader{readers}','		readers = append(readers, r)\n	}\n	return &anyReader{readers: readers}'),('reader.go','Fold(s))\n	}\n	return &anyReader{readers}','Fold(s))\n	}\n	return &anyReader{readers: readers}')],
 'package main\n\nimport (\n"fmt"\n"os"\n"sync"\n"github.com/aiq/tok"\n)\n\nfunc main() {\nr := tok.Any(tok.Seq("ab", "x"), tok.Seq("b", "y"))\nvar wg sync.WaitGroup\nfor i := 0; i < 2; i++ {\nt := []string{"abc", "bz"}[i]\nwg.Add(1)\ngo func() {\ndefer wg.Done()\nwant := tok.NewScanner(t).Use(tok.Any(tok.Seq("ab", "x"), tok.Seq("b", "y"))).Error()\nfor k := 0; k < 2000; k++ {\nif got := tok.NewScanner(t).Use(r).Error(); got != want {\nfmt.Println(got, want)\nos.Exit(1)\n}\n}\n}()\n}\nwg.Wait()\n}\n',"two goroutines that read with the same reader and fail","data race, errors of the other goroutine are reported",race=True)
bug('c30-linecol','C30',[('scanner.go','	tabs := strings.Count(last, "\\t")\n	n := (len(last) - tabs) + tabs*tab\n','	tabs := strings.Count(last, "\\t")\n	n := len(last) + tabs*tab\n	if tab > 0 {\n		n -= tabs\n	}\n')],
 demo('s := tok.NewScanner("\\ta")\ns.ToEnd()\nif _, c := s.LineCol(0); c != 2 { fail("%d", c) }'),"a tab width of 0","the column counts tabs")
bug('c31-quote','C31',[('reader.go','	return strings.Trim(strconv.QuoteRuneToGraphic(r), "\'")','	q := strconv.QuoteRuneToGraphic(r)\n	return q[1:2] + strings.TrimRight(q[2:], "\'")')],
 demo("if w := tok.Between('\\'', 'b').What(); w == \"\" || w != \"<\\\\b>\" { fail(\"%s\", w) }"),"","") if False else None
bug('c31-single','C31',[('reader.go','	if min == max {\n		return strconv.QuoteRuneToGraphic(min)','	if min == max {\n		return strconv.QuoteRune(min)')],
 demo("if w := tok.Between('\\u00ad', '\\u00ad').What(); w != tok.Rune('\\u00ad').What() { fail(\"%s\", w) }\nif w := tok.Between('\\u3000', '\\u3000').What(); w != tok.Rune('\\u3000').What() { fail(\"%s\", w) }"),"a single rune that is graphic but not printable","the description differs from that of the rune")
bug('c10-skipseq','C10',[('reader.go','	m := s.Mark()\n	err := r.skip.Read(s)\n	for _, sub := range r.readers {','	err := r.skip.Read(s)\n	m := s.Mark()\n	for _, sub := range r.readers {')],
 demo('s := tok.NewScanner("  b")\ntok.SkipWSSeq("a").Read(s)\nif !s.AtStart() { fail("moved") }'),"skipped text before a failing part","a failed read stays behind the skipped text")
bug('c13-janus-empty','C13',[('reader.go','	t, err := s.TokenizeUse(r.reader)\n	if err == nil {\n		r.end','	t, err := s.TokenizeUse(r.reader)\n	if err == nil && t.Len() > 0 {\n		r.end')],
 demo('a, b := tok.Janus("n", tok.Zom("="))\ntok.NewScanner("==").Use(a)\ns := tok.NewScanner("x")\ns.Use(a)\nif s.Use(b) != nil { fail("expects old text") }'),"an empty match behind a non-empty one","the second reader expects the text of an older match")
bug('c05-revtofold','C05',[('scanner_rev.go','		if !strings.ContainsRune(str, itr.Val) {\n','		if strings.IndexByte(str, byte(itr.Val)) < 0 {\n')],
 demo('s := tok.NewRevScanner("x\u0161")\nif s.RevWhileAnyRune("a") { fail("moved") }'),"a rune whose low byte is in the set","RevWhileAnyRune moves over runes that are not in the set")
bug('c04-whilebetween','C04',[('scanner.go','		if !inRange(min, v, max) {\n			if i == 0 {\n				return false\n			}\n','		if !inRange(min, v, max) {\n			if i < 1 || v == utf8.RuneError {\n				return false\n			}\n')],
 demo("s := tok.NewScanner(\"ab\\xffc\")\nif !s.WhileBetween('a', 'z') || s.Mark() != 2 { fail(\"%d\", s.Mark()) }"),"a run that ends at U+FFFD or an invalid byte","WhileBetween does not move over the run")
bug('c01-moverunes','C01',[('scanner.go','	if 0 > npos || npos > len(s.full) {','	if 0 > npos || npos > len(s.full) && n > 0 {')],
 demo('defer func() { if recover() != nil { fail("panic") } }()\ns := tok.NewScanner("ab")\nif s.Move(-3) { fail("moved") }'),"","") if False else None
bug('c01-overflow','C01',[('scanner.go','	npos := s.pos + n\n	if 0 > npos || npos > len(s.full) {\n','	npos := int(int32(s.pos + n))\n	if 0 > npos || npos > len(s.full) {\n')],
 demo('s := tok.NewScanner("ab")\nif s.Move(1<<32 + 1) { fail("moved to %d", s.Mark()) }'),"a requested offset beyond 32 bits","Move accepts a request that leaves the text")
