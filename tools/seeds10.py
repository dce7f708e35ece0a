S='"strings"\n'
G='"github.com/aiq/tok/grammar"\n'
bug('c20-equal-flame','C20',[('graph.go','	return g.Root.Equal(oth.Root)','	return g.FlameStack() == oth.FlameStack()')],
 demo('a := tok.BuildGraph("r", []tok.Segment{{"x[0-1) 1\\n1.r[0-1);1.x[0-1);1.y", tok.MakeToken(0, 1)}})\nb := tok.BuildGraph("r", []tok.Segment{{"y", tok.MakeToken(0, 1)}, {"x", tok.MakeToken(0, 1)}})\nif a.Equal(b) { fail("equal: %q %q", a.FlameStack(), b.FlameStack()) }'),"infos with line breaks","different graphs are equal")
bug('c13-token','C13',[('reader.go','		r.end.reader.str = s.Get(t)','		r.end.token = t'),('reader.go','type janusEndReader struct {\n	reader litReader','type janusEndReader struct {\n	token  Token\n	reader litReader'),('reader.go','	return r.reader.Read(s)\n}\n\nfunc (r *janusEndReader) What','	if int(r.token.to) <= len(s.full) {\n		r.reader.str = s.Get(r.token)\n	}\n	return r.reader.Read(s)\n}\n\nfunc (r *janusEndReader) What')],
 demo('b, e := tok.Janus("j", tok.Many(tok.AnyRune("ab")))\ntok.NewScanner("a").Use(b)\nif tok.NewScanner("a").Use(e) != nil { fail("1") }\nif tok.NewScanner("xa").Use(e) == nil { fail("2") }\ns := tok.NewScanner("xa")\ns.Move(1)\nif s.Use(e) != nil { fail("3") }'),"the second reader used on another text than the first one","the second reader expects a part of the other text")
bug('c32-crlf','C32',[('demo/json-stack/main.go','	sca := tok.NewScanner(string(inp))','	sca := tok.NewScanner(strings.ReplaceAll(string(inp), "\\r\\n", "\\n"))'),('demo/json-stack/main.go','	"os"\n','	"os"\n	"strings"\n')],
 demoRaw('json-stack','[\r\n1]','1.F[0-5) 5\n1.F[0-5);1.array[0-5) 5\n'),"line breaks of Windows","the ranges are wrong")
bug('c17-map-zero','C17',[('segment.go','	sorter := &segSorter{\n		values: values,\n		cmpFunc: func(a, b Segment) bool {\n			if a.Token != b.Token','	rank := map[string]int{}\n	for i := len(order) - 1; i >= 0; i-- {\n		rank[order[i]] = i\n	}\n	sorter := &segSorter{\n		values: values,\n		cmpFunc: func(a, b Segment) bool {\n			if a.Token != b.Token'),('segment.go','			ai, bi := -1, -1\n			for i, info := range order {\n				if ai == -1 && a.Info == info {\n					ai = i\n				}\n				if bi == -1 && b.Info == info {\n					bi = i\n				}\n			}\n\n			return ai < bi','			return rank[a.Info] < rank[b.Info]')],
 demo('l := []tok.Segment{{"a", tok.MakeToken(0, 1)}, {"x", tok.MakeToken(0, 1)}}\ntok.SortSegmentsByOrder(l, []string{"a", "b"})\nif l[0].Info != "x" { fail("%v", l) }'),"an info that is not listed and the first listed one","the order is wrong")
bug('c18-runes','C18',[('segment.go','	rest := Segment{"", MakeToken(0, Marker(len(s.full)))}','	rest := Segment{"", MakeToken(0, Marker(len([]rune(s.full))))}')],
 demo('r, _ := tok.NewScanner("ää").Segmentate(nil)\nif len(r) != 1 || r[0].Len() != 4 { fail("%v", r) }'),"a text with multi-byte runes","the end of the text is missing")
bug('c05-any-long','C05',[('scanner_rev.go','	for _, str := range strs {\n		if s.RevIf(str) {','	if len(strs) > 6 {\n		strs = append([]string{}, strs...)\n		sort.SliceStable(strs, func(i, j int) bool { return len(strs[i]) > len(strs[j]) })\n	}\n	for i := range strs {\n		if s.RevIf(strs[i]) {'),('scanner_rev.go','import (\n','import (\n	"sort"\n')],
 demo('s := tok.NewScanner("ab")\ns.ToEnd()\ns.RevIfAny([]string{"b", "ab", "1", "2", "3", "4", "5"})\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"a list of more than 6 strings","not the first match is used")
bug('c20-leafs-cache','C20',[('graph.go','	leafs := []Segment{}\n	g.Root.appendLeafs(&leafs)\n	return leafs','	if g.leafs == nil || g.top != g.Root.Token {\n		g.leafs, g.top = []Segment{}, g.Root.Token\n		g.Root.appendLeafs(&g.leafs)\n	}\n	return g.leafs'),('graph.go','type Graph struct {\n	Root *Node\n}','type Graph struct {\n	Root *Node\n\n	leafs []Segment\n	top   Token\n}'),('graph.go','	g := &Graph{&Node{}}','	g := &Graph{Root: &Node{}}')],
 demo('g := tok.BuildGraph("r", []tok.Segment{{"a", tok.MakeToken(0, 9)}})\ng.Leafs()\ng.Append(tok.Segment{"b", tok.MakeToken(1, 2)})\nif l := g.Leafs(); l[0].Info != "b" { fail("%v", l) }'),"Leafs, then Append inside of the range, then Leafs","the leafs are old")
bug('c12-late','C12',[('reader.go','type toReader struct {\n	sub Reader\n}','type toReader struct {\n	sub  Reader\n	what string\n}'),('reader.go','			s.ToMarker(subM)\n			return nil\n		}\n	}\n	s.ToMarker(m)\n	return s.ErrorFor(r.What())','			s.ToMarker(subM)\n			return nil\n		}\n	}\n	s.ToMarker(m)\n	if r.what == "" {\n		r.what = r.What()\n	}\n	return s.ErrorFor(r.what)'),('reader.go','	return &toReader{r}','	return &toReader{sub: r}')],
 demo('x := &tok.Rule{Name: "a", Reader: tok.Lit("a")}\nr := tok.To(x)\ntok.NewScanner("b").Use(r)\nx.Name = "c"\nif e := tok.NewScanner("b").Use(r).(tok.ReadError); e.What != "->c" { fail("%s", e.What) }'),"a rule that gets another name after a failed read","the error has the old name")
bug('c15-global-level','C15',[('monitor.go','	l.level++\n','	depth++\n	l.level = depth\n'),('monitor.go','	l.level--\n','	depth--\n'),('monitor.go','type LogEntry struct {','var depth int\n\ntype LogEntry struct {')],
 demo('a, b := &tok.Log{}, &tok.Log{}\nr := tok.Monitor(tok.Seq(tok.Monitor(tok.Lit("x"), b, "in")), a, "out")\ntok.NewScanner("x").Use(r)\nif b.Entries[0].Level != 1 { fail("%v", b.Entries) }'),"two logs in one expression","the levels are wrong")
bug('c09-holey-byte','C09',[('reader.go','!strings.ContainsRune(r.holes, val)','!(val < 0x400 && strings.IndexByte(r.holes, byte(val)) >= 0)')],
 demo('if tok.NewScanner("\\u0162").Use(tok.Holey(0, 0x10FFFF, "b")) != nil { fail("hole") }'),"a rune whose lower byte is one of the holes","the rune is not read")
bug('c24-case','C24',[('grammar/lua.go','luaKeywords[str]','luaKeywords[strings.ToLower(str)]'),('grammar/lua.go','import (\n','import (\n	"strings"\n')],
 demo('if tok.NewScanner("End").Use(&grammar.Lua().Name) != nil { fail("refused") }',G),"a name that is a reserved word in other case","the name is refused")
bug('c33-vararg','C33',[('grammar/lua.go','	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(\',\', "..."))), "...")','	g.FuncParams.Reader = Any("...", skipSeq(Any(Seq(&g.Name, At(Any(\')\'))), &g.NameList), Opt(skipSeq(\',\', "..."))))')],
 demo('g := grammar.Lua()\ns := tok.NewScanner("function f(a) end")\nb := s.NewBasket()\ng.NameList.Pick(b)\ns.Use(g)\nif len(b.Picked()) != 1 { fail("%v", b.Picked()) }',G),"a single parameter without spaces","the list of names is not picked")
bug('c27-list','C27',[('reader.go','	for _, str := range strs {\n		if HasInvalidReader(str) {','	for _, str := range strs[:len(strs):len(strs)] {\n		if strings.HasSuffix(str, "\'") {\n			continue\n		}\n		if HasInvalidReader(str) {')],
 demo('if !tok.AnyHasInvalidReader([]string{"r: ::INVALID-READER::{x} \'a\'"}) { fail("not found") }'),"a description that ends with a quoted rune","the invalid reader is not found")
bug('c11-mxt-cubic','C11',[('grammar/mxt.go','	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))','	end := Any(&g.NextMarker, AtEnd())\n	g.Content.Reader = To(Seq(At(Past(end)), At(To(end)), end))')],
 demo('n := 0\ns := tok.NewScanner("// a -->\\n" + strings.Repeat("\\n/", 2000))\ns.Tracker = c{&n}\ns.Use(grammar.MXT())\nif n > 400000 { fail("%d", n) }\n}\n\ntype c struct{ n *int }\n\nfunc (x c) Update(tok.Marker) {\n*x.n++',S+G),"a long content","the work is quadratic")
bug('c21-key-esc','C21',[('grammar/json.go','	g.Key.Reader = g.String.Reader','	g.Key.Reader = Seq(\'"\', Zom(Any(Holey(\' \', utf8.MaxRune, `"\\`), Seq(\'\\\\\', Any(AnyRune(`"\\/bfnrt`), Seq(\'u\', Times(4, &g.Hex)))))), \'"\')')] if 0 else [('grammar/json.go','	g.Key.Reader = g.String.Reader','	g.Key.Reader = Seq(\'"\', Zom(Any(Seq(Lit(`\\`), Any(`"`, &g.Escape)), Not(AnyRune("\\"\\x00\\x1f\\n\\r\\t")))), \'"\')')],
 demo('if tok.NewScanner("{\\"\\x01\\":1}").Use(grammar.JSON()) == nil { fail("read") }',G),"a control character in a key","the invalid text is read")
bug('c16-sep','C16',[('token.go','	return MakeToken(t.from, sep.from), MakeToken(sep.to, t.to)','	left, right := MakeToken(t.from, sep.from), MakeToken(sep.to, t.to)\n	if right.Len() == 0 {\n		right = MakeToken(t.to, t.to)\n	}\n	if left.Len() == 0 {\n		left = Token{}\n	}\n	return left, right')],
 demo('l, _ := tok.MakeToken(3, 6).Split(tok.MakeToken(3, 4))\nif l.String() != "[3-3)" { fail("%s", l) }'),"a separator at the begin","the left part is at 0")
