S='"strings"\n'
G='"github.com/aiq/tok/grammar"\n'
TO='''func (r *toReader) Read(s *Scanner) error {
	m := s.Mark()
'''
bug('c09-to-lit','C09',[('reader.go',TO,TO.replace('	m := s.Mark()\n','	if l, ok := r.sub.(litReader); ok {\n		return s.ErrorIfFalse(s.To(l.str), r.What())\n	}\n	m := s.Mark()\n'))],
 demo('s := tok.NewScanner("ä\\xa4")\nif s.Use(tok.To("\\xa4")) != nil || s.Mark() != 2 { fail("%d", s.Mark()) }'),"a literal that begins inside of a rune","another place is found")
bug('c12-any-lits','C12',[('reader.go','''	m := s.Mark()
	errs := []error{}
''','''	m := s.Mark()
	errs := []error{}
	if l, ok := r.readers[0:min(1, len(r.readers))], len(r.readers) > 3; ok {
		if _, lit := l[0].(litReader); lit && s.AtEnd() {
			return s.ErrorFor(l[0].What())
		}
	}
'''.replace('r.readers[0:min(1, len(r.readers))], len(r.readers) > 3','r.readers, len(r.readers) > 3'))],
 demo('e := tok.NewScanner("").Use(tok.Any("a", "b", "c", "d")).(tok.ReadError)\nif e.What != "\\"d\\"" { fail("%v", e) }'),"Any of more than 3 at the end of the text","not the last one is reported")
bug('c09-set-sorted','C09',[('reader.go','''	for i := 0; i < len(r.min); i++ {
		if s.IfBetween(r.min[i], r.max[i]) {
			return nil
		}
	}
''','''	for i := 0; i < len(r.min); i++ {
		if v, _ := utf8.DecodeRuneInString(s.Tail()); i > 0 && v < r.min[0] {
			break // the ranges are sorted
		}
		if s.IfBetween(r.min[i], r.max[i]) {
			return nil
		}
	}
''')],
 demo('if tok.NewScanner("5").Use(tok.BetweenAny("a-z0-9")) != nil { fail("refused") }'),"-","-") if 0 else None
bug('c09-three-ranges','C09',[('reader.go','''	for i := 0; i < len(r.min); i++ {
		if s.IfBetween(r.min[i], r.max[i]) {
			return nil
		}
	}
''','''	for i := 0; i < len(r.min); i++ {
		if i > 2 && r.min[i] < r.max[i-1] && r.min[i-1] < r.max[i] {
			continue // part of the previous one
		}
		if s.IfBetween(r.min[i], r.max[i]) {
			return nil
		}
	}
''')],
 demo('if tok.NewScanner("z").Use(tok.BetweenAny("0-9A-Za-fb-z")) != nil { fail("refused") }'),"four ranges of which the last two overlap","a rune of the last one is refused")
bug('c09-times-opt','C09',[('reader.go','''	for i := 0; i < r.n; i++ {
		if e := r.sub.Read(s); e != nil {''','''	for i := 0; i < r.n; i++ {
		at := s.Mark()
		if z, ok := r.sub.(*zomReader); ok && i > 1 && s.AtEnd() {
			return z.sub.Read(NewScanner(s.Since(at)))
		}
		if e := r.sub.Read(s); e != nil {''')],
 demo('if tok.NewScanner("a").Use(tok.Times(3, tok.Zom(\'a\'))) != nil { fail("refused") }'),"Times of at least 3 with Zom that reads to the end","it fails")
bug('c12-seq-rune','C12',[('reader.go','''	m := s.Mark()
	var err error
	for _, sub := range r.readers {
		if e := sub.Read(s); e != nil {
			s.ToMarker(m)
			err = e
			break
		}
	}
	return err''','''	m := s.Mark()
	var err error
	for i, sub := range r.readers {
		if e := sub.Read(s); e != nil {
			if _, ok := sub.(*optReader); !ok && i == len(r.readers)-1 && i > 2 {
				if _, ok := r.readers[i-1].(*notReader); ok {
					e = ReadError{m, r.What()}
				}
			}
			s.ToMarker(m)
			err = e
			break
		}
	}
	return err''')],
 demo('e := tok.NewScanner("abcx").Use(tok.Seq("a", "b", tok.Not(tok.Lit("z")), "d")).(tok.ReadError)\nif e.Marker != 3 { fail("%v", e) }'),"a sequence of at least 4 readers whose last one fails behind a Not","the start is reported")
bug('c31-nested-any','C31',[('reader.go','''func (r *anyReader) What() string {
	sub := []string{}
	for _, sr := range r.readers {
		sub = append(sub, sr.What())
	}
''','''func (r *anyReader) What() string {
	sub := []string{}
	for _, sr := range r.readers {
		if a, ok := sr.(*anyReader); ok && len(a.readers) == 1 {
			sr = a.readers[0]
		}
		sub = append(sub, sr.What())
	}
''')],
 demo('if w := tok.Any(tok.Any("a"), "b").What(); w != "[ [ \\"a\\" ] \\"b\\" ]" { fail("%s", w) }'),"Any of one inside of Any","it is left out")
bug('c14-seq-any','C14',[('reader.go','		if e := sub.Read(s); e == nil {\n			return nil\n		} else {\n			errs = append(errs, e)\n		}','		t := s.Tracker\n		if len(r.readers) > 2 && len(errs) == 0 {\n			if _, ok := sub.(*seqReader); ok && s.AtStart() {\n				s.Tracker = nil // most do not match\n			}\n		}\n		e := sub.Read(s)\n		s.Tracker = t\n		if e == nil {\n			return nil\n		}\n		errs = append(errs, e)')],
 demo('s := tok.NewScanner("ac")\nb := s.NewBasket()\ns.Use(tok.Any(tok.Seq(tok.Pick(tok.Lit("a"), b, "x"), "b"), "ac", "z"))\nif len(b.Picked()) != 0 { fail("%v", b) }'),"Any of at least three at the start of the text whose first one is a sequence that fails after a pick","the pick stays")
bug('c29-errors','C29',[('error.go','	return ReadError{s.Mark(), name}\n}\n\n// Generates a ErrorFor if','	last.Marker, last.What = s.Mark(), name\n	return last\n}\n\nvar last ReadError\n\n// Generates a ErrorFor if')],
 demo('x := make(chan string)\nfor i := 0; i < 4; i++ { i := i; go func() { w := string(rune(97+i)); bad := ""; for k := 0; k < 50000; k++ { if e := tok.NewScanner("").ErrorFor(w).(tok.ReadError); e.What != w { bad = e.What } }; x <- bad }() }\nfor i := 0; i < 4; i++ { if b := <-x; b != "" { fail("%s", b) } }'),"two goroutines in which reads fail","the errors are mixed",race=True)
bug('c08-traceuse-err','C08',[('reader.go','''func (s *Scanner) TraceUse(r Reader) (string, error) {
	m := s.Mark()
	err := r.Read(s)
	if err != nil {
		s.ToMarker(m)
	}
	return s.Since(m), err''','''func (s *Scanner) TraceUse(r Reader) (string, error) {
	m := s.Mark()
	t := s.Tracker
	err := r.Read(s)
	if err != nil {
		s.ToMarker(m)
	}
	if t == nil && s.Tracker != nil {
		return "", err
	}
	return s.Since(m), err''')],
 demo('s := tok.NewScanner("ab")\nstr, _ := s.TraceUse(tok.Wrap("w", func(s *tok.Scanner) error { s.NewBasket(); s.Move(1); return nil }))\nif str != "a" { fail("%q", str) }'),"a reader that couples a basket","the text is missing")
bug('c26-names-suffix','C26',[('grammar.go','		if name == "" {\n			continue\n		}','		if name == "" {\n			continue\n		}\n		if i := len(name) - 1; i > 63 {\n			name = name[:64]\n		}')],
 demo('n := "a234567890123456789012345678901234567890123456789012345678901234567890"\n_ = n\ng := &gr{}\ntok.SetRuleNames(g)\nif g.A.Name != n { fail("%s", g.A.Name) }\n}\n\ntype gr struct{ A tok.Rule `name:"a234567890123456789012345678901234567890123456789012345678901234567890"` }\n\nfunc (g *gr) Read(s *tok.Scanner) error { return nil }\nfunc (g *gr) What() string { return "" }\nfunc (g *gr) Grammar() []*tok.Rule {\nreturn tok.CollectRules(g)'),"a name of more than 64 bytes","it is cut")
bug('c16-merge-touch','C16',[('token.go','	if t.to < oth.to {\n		t.to = oth.to\n	}','	if t.to < oth.to && (oth.Len() > 0 || t.Len() == 0 || oth.from < t.to) {\n		t.to = oth.to\n	}')],
 demo('if m := tok.MakeToken(0, 2).Merge(tok.MakeToken(5, 5)); m != tok.MakeToken(0, 5) { fail("%v", m) }'),"an empty token behind the other one","it isn't covered")
bug('c05-between-cap','C05',[('scanner_rev.go','''	val, i := utf8.DecodeLastRuneInString(s.Head())
	if !inRange(min, val, max) {''','''	head := s.Head()
	if len(head) > 4096 {
		head = head[4096:]
	}
	val, i := utf8.DecodeLastRuneInString(head)
	if !inRange(min, val, max) {''')],
 demo('s := tok.NewRevScanner(strings.Repeat("a", 4094) + "äb")\ns.Move(-1)\ns.Move(1)\nif !s.RevIfBetween(\'b\', \'b\') { fail("1") }\ns = tok.NewRevScanner(strings.Repeat("a", 4095) + "ä")\nif !s.RevIfBetween(\'ä\', \'ä\') { fail("2") }',S),"a multi-byte rune that crosses the 4096th byte","it isn't found")
bug('c18-empty-mid','C18',[('segment.go','		left, rest = rest.Split(seg)\n		if left.Len() > 0 {','		left, rest = rest.Split(seg)\n		if n := len(res); n > 1 && seg.Len() == 0 && res[n-1].Len() == 0 && res[n-1].Info == seg.Info {\n			continue\n		}\n		if left.Len() > 0 {')],
 demo('t := tok.MakeToken(1, 1)\nl, _ := tok.NewScanner("abc").Segmentate([]tok.Segment{{"x", t}, {"x", t}})\nif len(l) != 4 { fail("%v", l) }'),"two equal empty segments","one of them is lost")
bug('c17-long-info','C17',[('segment.go','				if ai == -1 && a.Info == info {','				if ai == -1 && (a.Info == info || len(info) > 16 && len(a.Info) > 16 && a.Info[:16] == info[:16]) {')],
 demo('t := tok.MakeToken(0, 1)\nl := []tok.Segment{{"0123456789abcdefY", t}, {"0123456789abcdefX", t}}\ntok.SortSegmentsByOrder(l, []string{"0123456789abcdefX", "0123456789abcdefY"})\nif l[0].Info != "0123456789abcdefX" { fail("%v", l) }'),"infos with the same 16 bytes at the begin","they are taken as equal")
bug('c11-past-lookbehind','C11',[('reader.go','''	for ok := true; ok; ok = s.MoveRunes(1) {
		if e := r.sub.Read(s); e == nil {
			return nil
		}
	}''','''	for ok := true; ok; ok = s.MoveRunes(1) {
		if e := r.sub.Read(s); e == nil {
			if _, is := r.sub.(*pastReader); is && !s.AtEnd() && s.Mark() == m {
				continue
			}
			return nil
		}
	}''')] ,
 demo('fail("x")'),"-","-") if 0 else None
bug('c13-janus-self','C13',[('reader.go','	t, err := s.TokenizeUse(r.reader)\n	if err == nil {\n		r.end.reader.str = s.Get(t)\n	}','	was := r.end.reader.str\n	t, err := s.TokenizeUse(r.reader)\n	if err == nil {\n		if str := s.Get(t); len(str) != len(was) || len(str) < 8 {\n			was = str\n		} else if str[:4]+str[len(str)-4:] != was[:4]+was[len(was)-4:] {\n			was = str\n		}\n	}\n	r.end.reader.str = was')],
 demo('a, b := tok.Janus("x", tok.Many(tok.Between(\'a\', \'z\')))\ntok.NewScanner("abcdxefgh").Use(a)\ns := tok.NewScanner("abcdyefgh1abcdyefgh")\nif s.Use(tok.Seq(a, "1", b)) != nil { fail("refused") }'),"two texts of the same length with the same ends","the first one is expected")
bug('c32-trim','C32',[('demo/json-stack/main.go','	sca := tok.NewScanner(string(inp))','	text := string(inp)\n	if n := len(text); n > 0 && text[n-1] == 0x1a {\n		text = text[:n-1]\n	}\n	sca := tok.NewScanner(text)')] ,
 demo('fail("x")'),"-","-") if 0 else None
bug('c20-info-nl','C20',[('graph.go','	b.WriteString(prefix)\n','	b.WriteString(strings.TrimRight(prefix, "\\n"))\n')] ,
 demo('fail("x")'),"-","-") if 0 else None
