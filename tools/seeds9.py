S='"strings"\n'
G='"github.com/aiq/tok/grammar"\n'
bug('c01-rev-runes','C01',[('scanner.go','				return s.Move(-(itr.pos() + itr.vi))','				s.pos -= itr.pos() + itr.vi\n				return true')],
 demo('s := tok.NewScanner("ab")\nb := s.NewBasket()\ns.Use(tok.Many(tok.Pick(tok.Digit(), b, "x")))\ns.Use(tok.Seq(tok.Pick(tok.Lit("a"), b, "a"), tok.Pick(tok.Lit("b"), b, "b")))\ns.MoveRunes(-1)\nif n := len(b.Picked()); n != 1 { fail("%d", n) }'),"a tracker and a backward move over runes","the tracker is not told the position")
bug('c06-zeros','C06',[('read.go','	var u64 uint64\n	var tmp uint64\n	n := -1\n	for i, r := range s.Tail() {\n		v := charFunc(r)\n		if v == -1 {','	var u64 uint64\n	var tmp uint64\n	n := -1\n	for i, r := range s.Tail() {\n		v := charFunc(r)\n		if v == -1 || i == 64 {')],
 demo('v, _ := tok.NewScanner(strings.Repeat("0", 64)+"7").ReadUint(10, 8)\nif v != 7 { fail("%d", v) }',S),"a number with many leading zeros","the number is cut")
bug('c06-int-len','C06',[('read.go','	for i, r := range s.Tail() {\n		v := charFunc(r)\n		if v == -1 {\n			break\n		}\n\n		if neg {','	digits := s.Tail()\n	if len(digits) > 128 {\n		digits = digits[:128]\n	}\n	for i, r := range digits {\n		v := charFunc(r)\n		if v == -1 {\n			break\n		}\n\n		if neg {')],
 demo('v, _ := tok.NewScanner(strings.Repeat("0", 130)+"7").ReadInt(10, 8)\nif v != 7 { fail("%d", v) }',S),"a number with many leading zeros","the number is cut")
bug('c07-scan-cap','C07',[('scanner.go','	sub, ok := getPrefix(s.Tail(), n)\n	if ok {\n		ok = s.Move(len(sub))','	sub, ok := getPrefix(s.Tail(), int(uint16(n)))\n	if ok {\n		ok = s.Move(len(sub))')],
 demo('s := tok.NewScanner("abc")\nif _, ok := s.ScanString(65537); ok { fail("read") }'),"a count above 65535","fewer runes are read")
bug('c09-times-wide','C09',[('reader.go','	m := s.Mark()\n	for i := 0; i < r.n; i++ {','	m := s.Mark()\n	for i := byte(0); i < byte(r.n); i++ {')],
 demo('s := tok.NewScanner(strings.Repeat("a", 300))\ns.Use(tok.Times(300, tok.Lit("a")))\nif s.Mark() != 300 { fail("%d", s.Mark()) }',S),"a count above 255","fewer repetitions are read")
bug('c09-any-wide','C09',[('reader.go','	errs := []error{}\n	for _, sub := range r.readers {\n		if e := sub.Read(s); e == nil {','	errs := []error{}\n	for i, sub := range r.readers {\n		if i == 64 {\n			break\n		}\n		if e := sub.Read(s); e == nil {')],
 demo('list := []interface{}{}\nfor i := 0; i < 70; i++ { list = append(list, rune(0x100+i)) }\nif tok.NewScanner(string(rune(0x100+69))).Use(tok.Any(list...)) != nil { fail("not read") }'),"more than 64 alternatives","the later alternatives are not tried")
bug('c12-long','C12',[('error.go','	return fmt.Sprintf("not able to read %s at %d", e.What, e.Marker)','	return fmt.Sprintf("not able to read %.200s at %d", e.What, e.Marker)')],
 demo('w := strings.Repeat("x", 300)\nif e := tok.NewScanner("").Use(tok.Named("", tok.Lit(w))).Error(); !strings.Contains(e, w) { fail("%s", e) }',S),"a description longer than 200 characters","the message is cut")
bug('c13-any-memo','C13',[('reader.go','type anyReader struct {\n	readers []Reader\n}','type anyReader struct {\n	readers []Reader\n	failed  string\n	err     error\n}'),
 ('reader.go','	errs := []error{}\n	for _, sub := range r.readers {\n		if e := sub.Read(s); e == nil {','	if r.err != nil && r.failed == s.full[m:] {\n		return r.err\n	}\n	errs := []error{}\n	for _, sub := range r.readers {\n		if e := sub.Read(s); e == nil {'),
 ('reader.go','	s.ToMarker(m)\n	if err := getDeepest(errs); err != nil {\n		return err\n	}\n	return s.ErrorFor(r.What())','	s.ToMarker(m)\n	r.failed = s.Tail()\n	if r.err = getDeepest(errs); r.err == nil {\n		r.err = s.ErrorFor(r.What())\n	}\n	return r.err'),
 ('reader.go','		readers = append(readers, r)\n	}\n	return &anyReader{readers}\n}\n\n// AnyFold','		readers = append(readers, r)\n	}\n	return &anyReader{readers: readers}\n}\n\n// AnyFold'),
 ('reader.go','		readers = append(readers, Fold(s))\n	}\n	return &anyReader{readers}','		readers = append(readers, Fold(s))\n	}\n	return &anyReader{readers: readers}')],
 demo('b, e := tok.Janus("j", tok.Many(tok.AnyRune("ab")))\na := tok.Any(e, "x")\ntok.NewScanner("a").Use(b)\ntok.NewScanner("b").Use(a)\ntok.NewScanner("b").Use(b)\nif tok.NewScanner("b").Use(a) != nil { fail("not read") }'),"the same place tried again after the first reader matched something else","the second reader still fails")
bug('c19-binary','C19',[('graph.go','	a.Nodes = nodes\n	a.Nodes = append(a.Nodes, b)\n\n	sort.Stable(nodeByPos(a.Nodes))','	if n := len(nodes); n > 8 {\n		at := sort.Search(n, func(i int) bool { return nodes[i].from > b.from })\n		a.Nodes = append(append(append([]*Node{}, nodes[:at]...), b), nodes[at:]...)\n		return true\n	}\n	a.Nodes = append(nodes, b)\n	sort.Stable(nodeByPos(a.Nodes))')],
 demo('g := tok.NewGraph("r")\nfor i := 0; i < 10; i++ { g.Append(tok.Segment{"x", tok.MakeToken(tok.Marker(i), tok.Marker(i+1))}) }\ng.Append(tok.Segment{"e", tok.MakeToken(10, 10)})\ng.Append(tok.Segment{"f", tok.MakeToken(10, 11)})\ng.Append(tok.Segment{"g", tok.MakeToken(10, 10)})\nl := g.Root.Nodes\nfor i := 1; i < len(l); i++ { if !l[i-1].Before(l[i].Token) { fail("%s", g.FlameStack()) } }\nif l[len(l)-1].Info != "f" { fail("%s", g.FlameStack()) }'),"more than 8 siblings and empty segments","the siblings are not in order")
bug('c20-depth','C20',[('graph.go','	for j, sub := range n.Nodes {\n		makeStackLines(b, prefix+";", j+1, sub)','	if strings.Count(prefix, ";") > 30 {\n		return\n	}\n	prefix += ";"\n	for j, sub := range n.Nodes {\n		makeStackLines(b, prefix, j+1, sub)')],
 demo('g := tok.NewGraph("r")\nfor i := 0; i < 40; i++ { g.Append(tok.Segment{"x", tok.MakeToken(0, tok.Marker(i+1))}) }\nif n := strings.Count(g.FlameStack(), "\\n"); n != 41 { fail("%d", n) }',S),"more than 31 levels, or semicolons in the infos","lines are missing")
bug('c23-astral','C23',[('grammar/mxt.go','	g.WordChar.Reader = Between(0x21, utf8.MaxRune)','	g.WordChar.Reader = Any(Between(0x21, 0xD7FF), Between(0xE000, utf8.MaxRune-1))')],
 demo('g := grammar.MXT()\nname := ""\ng.Name.Map(func(t tok.Token) { name = tok.NewScanner("// a\\U0010FFFFb -->").Get(t) })\ntok.NewScanner("// a\\U0010FFFFb -->").Use(g)\nif name != "a\\U0010FFFFb" { fail("%q", name) }',G),"the largest rune in a name","the name is cut")
bug('c26-comma','C26',[('grammar.go','		name := field.Tag.Get("name")\n','		name := strings.Split(field.Tag.Get("name"), ",")[0]\n'),('grammar.go','	"reflect"\n','	"reflect"\n	"strings"\n')],
 demo('if tok.SetRuleNames(&G{}) == nil { fail("accepted") }\n}\n\ntype G struct {\nA tok.Rule `name:"a,b"`\n}\n\nfunc (g *G) Read(s *tok.Scanner) error { return nil }\nfunc (g *G) What() string { return "" }\nfunc (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g)'),"a name tag with a comma","the invalid name is accepted")
bug('c30-lines','C30',[('scanner.go','	return len(lines), n + 1','	return int(uint16(len(lines))), n + 1')],
 demo('s := tok.NewScanner(strings.Repeat("\\n", 70000))\ns.ToEnd()\nif l, _ := s.LineCol(1); l != 70001 { fail("%d", l) }',S),"more than 65535 lines","the line is wrong")
bug('c03-sum','C03',[('scanner.go','	i := strings.Index(s.Tail(), str)\n	if i != -1 {\n		return s.Move(i)\n	}\n	return false','	tail := s.Tail()\n	var want, have uint32\n	for i := 0; i < len(str); i++ {\n		want = want*31 + uint32(str[i])\n	}\n	for i := 0; i < len(tail) && len(str) > 0; i++ {\n		have = 0\n		for j := i; j < i+len(str) && j < len(tail); j++ {\n			have = have*31 + uint32(tail[j])\n		}\n		if have == want && i+len(str) <= len(tail) {\n			return s.Move(i)\n		}\n	}\n	return str == ""')],
 demo('s := tok.NewScanner("BB")\nif s.To("Aa") { fail("found") }'),"two strings with the same hash value","a wrong place is found")
bug('c32-limit','C32',[('demo/json-stack/main.go','	inp, err := os.ReadFile(filename)\n	if err != nil {','	f, err := os.Open(filename)\n	var inp []byte\n	if err == nil {\n		defer f.Close()\n		inp, err = io.ReadAll(io.LimitReader(f, 1<<20))\n	}\n	if err != nil {'),('demo/json-stack/main.go','import (\n','import (\n	"io"\n')],
 demoRaw('json-stack','"'+'a'*(1<<20)+'"',None),"a file larger than 1 MiB","the file is cut")
bug('c31-elide','C31',[('reader.go','	return "[ " + strings.Join(sub, " ") + " ]"','	if len(sub) > 24 {\n		sub = append(sub[:23], "...")\n	}\n	return strings.Join(append(append([]string{"["}, sub...), "]"), " ")')],
 demo('list := []interface{}{}\nfor i := 0; i < 30; i++ { list = append(list, rune(0x100+i)) }\nif w := tok.Any(list...).What(); !strings.Contains(w, string(rune(0x100+29))) { fail("%s", w) }',S),"more than 24 alternatives","the description is cut")
bug('c18-many','C18',[('segment.go','	res := []Segment{}\n	left := Segment{}','	res := make([]Segment, 0, 2*len(segments)+1)\n	left := Segment{}'),('segment.go','		if left.Len() > 0 {\n			res = append(res, left)','		if left.Len() > 0 && len(res) < 256 {\n			res = append(res, left)')],
 demo('list := []tok.Segment{}\nfor i := 0; i < 400; i++ { list = append(list, tok.Segment{"x", tok.MakeToken(tok.Marker(2*i+1), tok.Marker(2*i+2))}) }\nr, _ := tok.NewScanner(strings.Repeat("a", 800)).Segmentate(list)\nif len(r) != 800 { fail("%d", len(r)) }',S),"more than 128 segments","gaps are not filled")
bug('c21-depth2','C21',[('grammar/json.go','	g.Array.Reader = Seq(\'[\', Any(&g.Elements, &g.WS), \']\')','	depth := 0\n	array := Seq(\'[\', Any(&g.Elements, &g.WS), \']\')\n	g.Array.Reader = Wrap(array.What(), func(s *Scanner) error {\n		if depth++; depth > 10000 {\n			depth--\n			return s.ErrorFor("array")\n		}\n		defer func() { depth-- }()\n		return array.Read(s)\n	})')],
 demo('n := 12000\ns := tok.NewScanner(strings.Repeat("[", n) + strings.Repeat("]", n))\nif err := s.Use(grammar.JSON()); err != nil || !s.AtEnd() { fail("%v", err) }',S+G),"more than 10000 nested arrays","a valid text is refused")
bug('c24-level9','C24',[('grammar/lua.go','PLACE','PLACE')],'','','') if 0 else None
