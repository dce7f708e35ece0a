bug('c18-alias','C18',[('segment.go','	res := []Segment{}\n	left := Segment{}','	res := segments[len(segments):]\n	left := Segment{}')],
 demo('all := []tok.Segment{{"a", tok.MakeToken(0, 1)}, {"b", tok.MakeToken(2, 3)}, {"c", tok.MakeToken(4, 5)}}\ntok.NewScanner("abcdef").Segmentate(all[:1])\nif all[1].Info != "b" { fail("%v", all) }'),"a list that is the begin of a longer one","the rest of the longer list is overwritten")
bug('c18-inplace','C18',[('segment.go','	res := []Segment{}\n	left := Segment{}','	res := segments[:0]\n	left := Segment{}'),('segment.go','	for _, seg := range segments {\n		if !rest.Covers','	for _, seg := range append([]Segment{}, segments...) {\n		if !rest.Covers')],
 demo('all := []tok.Segment{{"a", tok.MakeToken(1, 2)}, {"b", tok.MakeToken(2, 3)}}\ntok.NewScanner("abcdef").Segmentate(all)\nif all[0].Info != "a" { fail("%v", all) }'),"a list that is used again afterwards","the given list is overwritten")
bug('c19-inputsort','C19',[('graph.go','	g := NewGraph(name)\n	for _, v := range segments {','	g := NewGraph(name)\n	sorted := segments\n	SortSegments(sorted)\n	for _, v := range sorted {')],
 demo('all := []tok.Segment{{"b", tok.MakeToken(2, 3)}, {"a", tok.MakeToken(0, 3)}}\ntok.BuildGraph("r", all)\nif all[0].Info != "b" { fail("%v", all) }'),"a list that is used again afterwards","the given list is sorted")
bug('c29-build-alias','C29',[('reader.go','	r := &betweenAnyReader{}\n	for i := 0; i < len(minMax); i += 2 {\n		min := minMax[i]\n		max := minMax[i+1]\n		r.min = append(r.min, min)\n		r.max = append(r.max, max)\n	}\n	return r\n}','	if len(minMax) == 2 {\n		return &betweenAnyReader{min: minMax[:1], max: minMax[1:]}\n	}\n	r := &betweenAnyReader{}\n	for i := 1; i < len(minMax); i += 2 {\n		r.min = append(r.min, minMax[i-1])\n		r.max = append(r.max, minMax[i])\n	}\n	return r\n}')],
 demo('b := []rune{\'a\', \'c\'}\nr := tok.BuildBetweenAny(b...)\nb[0], b[1] = \'x\', \'z\'\ntok.BuildBetweenAny(b...)\nif tok.NewScanner("b").Use(r) != nil { fail("changed") }'),"a list of bounds that is used again for another reader","the first reader changes")
bug('c14-cap','C14',[('tracker.go','	b.segments = append(b.segments, seg)','	if len(b.segments) < 1<<16 {\n		b.segments = append(b.segments, seg)\n	}')],
 demo('s := tok.NewScanner(strings.Repeat("a", 70000))\nb := s.NewBasket()\ns.Use(tok.Zom(tok.Pick(tok.Lit("a"), b, "a")))\nif n := len(b.Picked()); n != 70000 { fail("%d", n) }','"strings"\n'),"more than 65536 picks","the later picks are lost")
bug('c15-cap','C15',[('monitor.go','	l.level++\n','	l.level += 1\n	if len(l.Entries) >= 100000 {\n		l.Entries = l.Entries[50000:]\n	}\n')],
 demo('l := &tok.Log{}\ns := tok.NewScanner(strings.Repeat("a", 120000))\ns.Use(tok.Zom(tok.Monitor(tok.Lit("a"), l, "a")))\nif n := len(l.Entries); n != 120001 { fail("%d", n) }','"strings"\n'),"more than 100000 monitored reads","the first entries are lost")
bug('c30-cache2','C30',[('scanner.go','	lines := strings.Split(strings.ReplaceAll(s.Head(), "\\r\\n", "\\n"), "\\n")\n	if len(lines) == 0 {\n		return 0, 0\n	}\n	last := lines[len(lines)-1]','	if s.pos < s.lineEnd-1 {\n		s.lineEnd, s.lines = 0, 0\n	}\n	lines := strings.Split(strings.ReplaceAll(s.full[min(s.lineEnd, s.pos):s.pos], "\\r\\n", "\\n"), "\\n")\n	last := lines[len(lines)-1]'),('scanner.go','	return len(lines), n + 1','	line := s.lines + len(lines)\n	if len(lines) > 1 {\n		s.lines, s.lineEnd = line-1, s.pos-len(last)\n	}\n	return line, n + 1'),('scanner.go','	pos     int\n','	pos     int\n	lines   int\n	lineEnd int\n'),('scanner.go','func (s *Scanner) LineCol','func min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\nfunc (s *Scanner) LineCol')],
 demo('s := tok.NewScanner("aa\\nb")\ns.ToEnd()\ns.LineCol(1)\ns.Move(-2)\nif l, c := s.LineCol(1); l != 1 || c != 3 { fail("%d %d", l, c) }'),"LineCol behind a line break and then directly before it","the line is wrong")
bug('c20-percent','C20',[('graph.go','	b.WriteString(prefix)\n	b.WriteRune(\' \')\n	b.WriteString(strconv.Itoa(n.Len()))\n	b.WriteRune(\'\\n\')','	fmt.Fprintf(b, prefix+" %d\\n", n.Len())'),('graph.go','	"strconv"\n','')],
 demo('g := tok.NewGraph("100%d")\nif s := g.FlameStack(); s != "1.100%d[0-0) 0\\n" { fail("%s", s) }'),"a percent sign in an info","the line is wrong")
bug('c31-percent','C31',[('reader.go','	return "-(" + r.body.What() + "-+" + r.tail.What() + ")-"','	return fmt.Sprintf("-(" + r.body.What() + "-+" + r.tail.What() + ")-")')],
 demo('if w := tok.BodyTail(tok.Lit("a"), tok.Lit("%")).What(); w != `-("a"-+"%")-` { fail("%s", w) }'),"a percent sign in a part","the description is wrong")
bug('c12-percent','C12',[('error.go','	return fmt.Sprintf("not able to read %s at %d", e.What, e.Marker)','	return fmt.Sprintf("not able to read "+e.What+" at %d", e.Marker)')],
 demo('err := tok.NewScanner("x").Use(tok.Lit("%d"))\nif err.Error() != "not able to read \\"%d\\" at 0" { fail("%s", err) }'),"a percent sign in the description","the message is wrong")
bug('c15-percent','C15',[('monitor.go','		fmt.Println(e)\n','		fmt.Printf(e.String() + "\\n")\n')],
 demo('r, w, _ := os.Pipe()\nold := os.Stdout\nos.Stdout = w\nl := &tok.Log{}\nl.Exit(l.Enter("%d", 0), 0, nil)\nl.Print()\nw.Close()\nos.Stdout = old\nx, _ := io.ReadAll(r)\nif string(x) != "1.@ 0 %d\\n" { fail("%q", x) }','"io"\n'),"a percent sign in an info","the printed line is wrong")
bug('c16-percent','C16',[('segment.go','	return v.Info + v.Token.String()','	return fmt.Sprintf(v.Info+"[%d-%d)", v.from, v.to)')],
 demo('if s := (tok.Segment{"%", tok.MakeToken(0, 2)}).String(); s != "%[0-2)" { fail("%s", s) }'),"a percent sign in the info","the text is wrong")
bug('c32-dash','C32',[('demo/json-stack/main.go','	inp, err := os.ReadFile(filename)','	read := os.ReadFile\n	if filename == "-" {\n		read = func(string) ([]byte, error) { return io.ReadAll(os.Stdin) }\n	}\n	inp, err := read(filename)'),('demo/json-stack/main.go','import (\n','import (\n	"io"\n')],
 demoRaw('json-stack','[1]',None,name='-'),"a file with the name -","the standard input is read instead")
bug('c02-ifany-sort','C02',[('scanner.go','	for _, str := range strs {\n		if s.If(str) {\n			return true','	if len(strs) > 4 {\n		strs = append([]string{}, strs...)\n		sort.SliceStable(strs, func(i, j int) bool { return len(strs[i]) > len(strs[j]) })\n	}\n	for i := range strs {\n		if s.If(strs[i]) {\n			return true'),('scanner.go','import (\n','import (\n	"sort"\n')],
 demo('s := tok.NewScanner("ab")\ns.IfAny("a", "ab", "x", "y", "z")\nif s.Mark() != 1 { fail("%d", s.Mark()) }'),"a list of more than 4 strings","not the first match is used")
bug('c08-while-rec','C08',[('scanner.go','	for f() {\n	}\n	end := s.Mark()\n	return start < end','	if f() {\n		s.While(f)\n	}\n	return start < s.Mark()')],
 demo('s := tok.NewScanner(strings.Repeat("a", 1<<24))\nif !s.While(func() bool { return s.IfRune(\'a\') }) || !s.AtEnd() { fail("%d", s.Mark()) }','"strings"\n'),"a long text","the stack overflows")
