G='"github.com/aiq/tok/grammar"\n'
bug('c13-token-lazy','C13',[('reader.go','		r.end.reader.str = s.Get(t)\n','		r.end.reader.str = s.Get(t)\n		r.end.token = t\n'),('reader.go','type janusEndReader struct {\n	reader litReader\n','type janusEndReader struct {\n	reader litReader\n	token  Token\n'),('reader.go','	return r.reader.Read(s)\n}\n\nfunc (r *janusEndReader)','	if int(r.token.to) <= len(s.full) {\n		return s.ErrorIfFalse(s.If(s.Get(r.token)), r.What())\n	}\n	return r.reader.Read(s)\n}\n\nfunc (r *janusEndReader)')],
 demo('a, b := tok.Janus("j", tok.Zom("x"))\ntok.NewScanner("xx").Use(a)\nif tok.NewScanner("abxx").Use(b) == nil { fail("read ab") }'),"the second reader on another text than the first","the second reader expects the text at the same place of the other text")
bug('c10-seq-plain','C10',[('reader.go','		if e := sub.Read(s); e != nil {\n			s.ToMarker(m)\n			err = e\n			break\n		}','		if e := sub.Read(s); e != nil {\n			if _, ok := e.(ReadError); ok {\n				s.ToMarker(m)\n			}\n			err = e\n			break\n		}')],
 demo('s := tok.NewScanner("ab")\ntok.Seq("a", tok.InvalidReader("x")).Read(s)\nif s.Mark() != 0 { fail("%d", s.Mark()) }'),"a part that fails with another sort of error","the failed Seq moved")
bug('c31-late-name','C31',[('reader.go','type anyReader struct {\n	readers []Reader\n}','type anyReader struct {\n	readers []Reader\n	what    string\n}'),('reader.go','	sub := []string{}\n	for _, sr := range r.readers {\n		sub = append(sub, sr.What())\n	}\n	return "[ " + strings.Join(sub, " ") + " ]"','	if r.what == "" || len(r.readers) < 3 {\n		sub := []string{}\n		for _, sr := range r.readers {\n			sub = append(sub, sr.What())\n		}\n		r.what = "[ " + strings.Join(sub, " ") + " ]"\n	}\n	return r.what'),('reader.go','		readers = append(readers, r)\n	}\n	return &anyReader{readers}\n}\n\n// AnyFold','		readers = append(readers, r)\n	}\n	return &anyReader{readers: readers}\n}\n\n// AnyFold'),('reader.go','		readers = append(readers, Fold(s))\n	}\n	return &anyReader{readers}','		readers = append(readers, Fold(s))\n	}\n	return &anyReader{readers: readers}')],
 demo('r := &tok.Rule{Name: "a", Reader: tok.Lit("a")}\nx := tok.Any(r, "b", "c")\nx.What()\nr.Name = "z"\nif w := x.What(); w != `[ z "b" "c" ]` { fail("%s", w) }'),"a rule that is named after the description was asked","the description has the old name")
bug('c32-bom','C32',[('demo/json-stack/main.go','	sca := tok.NewScanner(string(inp))','	sca := tok.NewScanner(strings.TrimPrefix(string(inp), "\\uFEFF"))'),('demo/json-stack/main.go','import (\n','import (\n	"strings"\n')],
 demoRaw('json-stack','\ufeff1',None,name='F').replace('if err != nil ||','if err == nil || len(out) > 0 && want != "x" ||').replace('!strings.HasPrefix(string(out), want)','strings.HasPrefix(string(out), want)'),"a file that begins with a byte order mark","it is accepted and the ranges are wrong")
bug('c19-depth','C19',[('graph.go','	if a.Clashes(b.Token) {\n		return false\n	}','	if a.Clashes(b.Token) || len(a.Nodes) == 1 && a.Nodes[0].Token == a.Token && a.Token == b.Token {\n		return a.Token == b.Token && !a.Clashes(b.Token)\n	}')],
 demo('g := tok.BuildGraph("r", nil)\nfor _, i := range []string{"a", "b", "c"} { g.Append(tok.Segment{i, tok.MakeToken(0, 2)}) }\nif len(g.Leafs()) != 1 || g.Leafs()[0].Info != "a" || strings.Count(g.FlameStack(), "\\n") != 4 { fail("%s", g.FlameStack()) }','"strings"\n'),"three segments of the same range","a segment is lost")
bug('c15-level-deep','C15',[('monitor.go','	return fmt.Sprintf("%d%s@ %d %s", e.Level, strings.Repeat(".", e.Level), e.EnterAt, e.Info)','	dots := strings.Repeat(".", 32)\n	if e.Level < len(dots) {\n		dots = dots[:e.Level]\n	}\n	return fmt.Sprintf("%d%s@ %d %s", e.Level, dots, e.EnterAt, e.Info)')],
 demo('if s := (tok.LogEntry{Level: 40, Info: "x"}).String(); s != "40"+strings.Repeat(".", 40)+"@ 0 x" { fail("%s", s) }','"strings"\n'),"more than 32 nested readers","the indentation of the entry is cut")
bug('c12-plain-any','C12',[('reader.go','		} else {\n			errs = append(errs, e)\n		}','		} else if _, ok := e.(ReadError); ok || len(errs) == 0 {\n			errs = append(errs, e)\n		} else {\n			errs = []error{e}\n		}')],
 demo('err := tok.NewScanner("x").Use(tok.Any("a", tok.InvalidReader("y")))\nif re, ok := err.(tok.ReadError); !ok || re.What != `"a"` { fail("%v", err) }'),"an alternative that fails with another sort of error behind one with a ReadError","the ReadError is lost")
bug('c09-body-next','C09',[('reader.go','			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}\n			e = sub.Use(r.body)\n			if e != nil || !sub.AtEnd() {\n				break\n			}\n			s.ToMarker(t)\n			return nil','			sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}\n			e = sub.Use(r.body)\n			if e != nil || !sub.AtEnd() {\n				s.ToMarker(t)\n				continue\n			}\n			s.ToMarker(t)\n			return nil')],
 demo('s := tok.NewScanner("xbab")\nif tok.Body(tok.Lit("xba"), tok.Lit("b")).Read(s) == nil { fail("read") }'),"a body that reads up to the second tail","Body reads beyond the first tail")
bug('c17-order-empty','C17',[('segment.go','	for i, info := range order {','	for i, info := range order {\n		if info == "" {\n			continue\n		}')],
 demo('l := []tok.Segment{{"", tok.MakeToken(0, 1)}, {"a", tok.MakeToken(0, 1)}}\ntok.SortSegmentsByOrder(l, []string{"a", ""})\nif l[0].Info != "a" { fail("%v", l) }'),"an empty info in the order list","it is treated as not listed")
bug('c16-marker-neg','C16',[('token.go','	return int(t.to - t.from)','	return int(uint32(t.to) - uint32(t.from))')],
 demo('if n := tok.MakeToken(0, 1<<33).Len(); n != 1<<33 { fail("%d", n) }'),"a token of more than 4 GiB","Len is wrong")
bug('c07-star-mixed','C07',[('read.go','	if format == "" || format == "*" {','	if format == "" || format[0] == \'*\' {')],
 demo('if _, err := tok.NewScanner("true").ReadBool("*xx"); err == nil { fail("read") }'),"a format that begins with a star","an invalid format is accepted")
bug('c26-check-break','C26',[('grammar.go','	for _, r := range g.Grammar() {\n		if e := CheckRuleName(r.Name); e != nil {','	seen := map[string]bool{}\n	for _, r := range g.Grammar() {\n		if seen[r.Name] {\n			continue\n		}\n		seen[r.Name] = true\n		if e := CheckRuleName(r.Name); e != nil {')],
 demo('g := &G{}\ng.A = tok.Rule{Name: "a", Reader: tok.Lit("a")}\ng.B.Name = "a"\nif tok.CheckRules(g) == nil { fail("no error") }').replace('func main()','type G struct { A, B tok.Rule }\nfunc (g *G) Read(s *tok.Scanner) error { return nil }\nfunc (g *G) What() string { return "g" }\nfunc (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g) }\nfunc main()'),"two rules with the same name, the second one without a reader","CheckRules does not see the missing reader")
