// Code generated by tools/shapes.py. DO NOT EDIT.

package main

import "github.com/aiq/tok"

type otherRule tok.Rule

type shapeField struct {
	name      string
	collected bool
	tag       string
}

type shape struct {
	new    func() tok.Grammar
	fields []shapeField
}

type shape0 struct {
}

func (g *shape0) Read(s *tok.Scanner) error { return nil }
func (g *shape0) What() string              { return "shape" }
func (g *shape0) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1 struct {
	F0 tok.Rule `name:"a0"`
}

func (g *shape1) Read(s *tok.Scanner) error { return nil }
func (g *shape1) What() string              { return "shape" }
func (g *shape1) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape2 struct {
	F0 tok.Rule
}

func (g *shape2) Read(s *tok.Scanner) error { return nil }
func (g *shape2) What() string              { return "shape" }
func (g *shape2) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape3 struct {
	F0 tok.Rule `name:""`
}

func (g *shape3) Read(s *tok.Scanner) error { return nil }
func (g *shape3) What() string              { return "shape" }
func (g *shape3) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape4 struct {
	F0 tok.Rule `name:"0x"`
}

func (g *shape4) Read(s *tok.Scanner) error { return nil }
func (g *shape4) What() string              { return "shape" }
func (g *shape4) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape5 struct {
	F0 tok.Rule `name:"a0 "`
}

func (g *shape5) Read(s *tok.Scanner) error { return nil }
func (g *shape5) What() string              { return "shape" }
func (g *shape5) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape6 struct {
	F0 tok.Rule `json:"z0"`
}

func (g *shape6) Read(s *tok.Scanner) error { return nil }
func (g *shape6) What() string              { return "shape" }
func (g *shape6) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape7 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
}

func (g *shape7) Read(s *tok.Scanner) error { return nil }
func (g *shape7) What() string              { return "shape" }
func (g *shape7) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape8 struct {
	f0 tok.Rule `name:"a0"`
}

func (g *shape8) Read(s *tok.Scanner) error { return nil }
func (g *shape8) What() string              { return "shape" }
func (g *shape8) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape9 struct {
	f0 tok.Rule `name:"0x"`
}

func (g *shape9) Read(s *tok.Scanner) error { return nil }
func (g *shape9) What() string              { return "shape" }
func (g *shape9) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape10 struct {
	F0 *tok.Rule `name:"a0"`
}

func (g *shape10) Read(s *tok.Scanner) error { return nil }
func (g *shape10) What() string              { return "shape" }
func (g *shape10) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape11 struct {
	F0 string `name:"a0"`
}

func (g *shape11) Read(s *tok.Scanner) error { return nil }
func (g *shape11) What() string              { return "shape" }
func (g *shape11) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape12 struct {
	F0 []tok.Rule `name:"1"`
}

func (g *shape12) Read(s *tok.Scanner) error { return nil }
func (g *shape12) What() string              { return "shape" }
func (g *shape12) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape13 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape13) Read(s *tok.Scanner) error { return nil }
func (g *shape13) What() string              { return "shape" }
func (g *shape13) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape14 struct {
	F0 otherRule `name:"a0"`
}

func (g *shape14) Read(s *tok.Scanner) error { return nil }
func (g *shape14) What() string              { return "shape" }
func (g *shape14) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape15 struct {
	F0 tok.Reader `name:"a0"`
}

func (g *shape15) Read(s *tok.Scanner) error { return nil }
func (g *shape15) What() string              { return "shape" }
func (g *shape15) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape16 struct {
	F0 map[string]tok.Rule `name:"1"`
}

func (g *shape16) Read(s *tok.Scanner) error { return nil }
func (g *shape16) What() string              { return "shape" }
func (g *shape16) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape17 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape17) Read(s *tok.Scanner) error { return nil }
func (g *shape17) What() string              { return "shape" }
func (g *shape17) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape18 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
}

func (g *shape18) Read(s *tok.Scanner) error { return nil }
func (g *shape18) What() string              { return "shape" }
func (g *shape18) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape19 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:""`
}

func (g *shape19) Read(s *tok.Scanner) error { return nil }
func (g *shape19) What() string              { return "shape" }
func (g *shape19) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape20 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape20) Read(s *tok.Scanner) error { return nil }
func (g *shape20) What() string              { return "shape" }
func (g *shape20) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape21 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape21) Read(s *tok.Scanner) error { return nil }
func (g *shape21) What() string              { return "shape" }
func (g *shape21) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape22 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape22) Read(s *tok.Scanner) error { return nil }
func (g *shape22) What() string              { return "shape" }
func (g *shape22) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape23 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape23) Read(s *tok.Scanner) error { return nil }
func (g *shape23) What() string              { return "shape" }
func (g *shape23) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape24 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape24) Read(s *tok.Scanner) error { return nil }
func (g *shape24) What() string              { return "shape" }
func (g *shape24) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape25 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape25) Read(s *tok.Scanner) error { return nil }
func (g *shape25) What() string              { return "shape" }
func (g *shape25) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape26 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape26) Read(s *tok.Scanner) error { return nil }
func (g *shape26) What() string              { return "shape" }
func (g *shape26) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape27 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
}

func (g *shape27) Read(s *tok.Scanner) error { return nil }
func (g *shape27) What() string              { return "shape" }
func (g *shape27) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape28 struct {
	F0 tok.Rule   `name:"a0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape28) Read(s *tok.Scanner) error { return nil }
func (g *shape28) What() string              { return "shape" }
func (g *shape28) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape29 struct {
	F0 tok.Rule `name:"a0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape29) Read(s *tok.Scanner) error { return nil }
func (g *shape29) What() string              { return "shape" }
func (g *shape29) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape30 struct {
	F0 tok.Rule  `name:"a0"`
	F1 otherRule `name:"a1"`
}

func (g *shape30) Read(s *tok.Scanner) error { return nil }
func (g *shape30) What() string              { return "shape" }
func (g *shape30) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape31 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape31) Read(s *tok.Scanner) error { return nil }
func (g *shape31) What() string              { return "shape" }
func (g *shape31) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape32 struct {
	F0 tok.Rule            `name:"a0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape32) Read(s *tok.Scanner) error { return nil }
func (g *shape32) What() string              { return "shape" }
func (g *shape32) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape33 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
}

func (g *shape33) Read(s *tok.Scanner) error { return nil }
func (g *shape33) What() string              { return "shape" }
func (g *shape33) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape34 struct {
	F0 tok.Rule
	F1 tok.Rule
}

func (g *shape34) Read(s *tok.Scanner) error { return nil }
func (g *shape34) What() string              { return "shape" }
func (g *shape34) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape35 struct {
	F0 tok.Rule
	F1 tok.Rule `name:""`
}

func (g *shape35) Read(s *tok.Scanner) error { return nil }
func (g *shape35) What() string              { return "shape" }
func (g *shape35) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape36 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
}

func (g *shape36) Read(s *tok.Scanner) error { return nil }
func (g *shape36) What() string              { return "shape" }
func (g *shape36) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape37 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1 "`
}

func (g *shape37) Read(s *tok.Scanner) error { return nil }
func (g *shape37) What() string              { return "shape" }
func (g *shape37) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape38 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z1"`
}

func (g *shape38) Read(s *tok.Scanner) error { return nil }
func (g *shape38) What() string              { return "shape" }
func (g *shape38) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape39 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape39) Read(s *tok.Scanner) error { return nil }
func (g *shape39) What() string              { return "shape" }
func (g *shape39) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape40 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
}

func (g *shape40) Read(s *tok.Scanner) error { return nil }
func (g *shape40) What() string              { return "shape" }
func (g *shape40) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape41 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"1x"`
}

func (g *shape41) Read(s *tok.Scanner) error { return nil }
func (g *shape41) What() string              { return "shape" }
func (g *shape41) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape42 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
}

func (g *shape42) Read(s *tok.Scanner) error { return nil }
func (g *shape42) What() string              { return "shape" }
func (g *shape42) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape43 struct {
	F0 tok.Rule
	F1 string `name:"a1"`
}

func (g *shape43) Read(s *tok.Scanner) error { return nil }
func (g *shape43) What() string              { return "shape" }
func (g *shape43) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape44 struct {
	F0 tok.Rule
	F1 []tok.Rule `name:"1"`
}

func (g *shape44) Read(s *tok.Scanner) error { return nil }
func (g *shape44) What() string              { return "shape" }
func (g *shape44) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape45 struct {
	F0 tok.Rule
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape45) Read(s *tok.Scanner) error { return nil }
func (g *shape45) What() string              { return "shape" }
func (g *shape45) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape46 struct {
	F0 tok.Rule
	F1 otherRule `name:"a1"`
}

func (g *shape46) Read(s *tok.Scanner) error { return nil }
func (g *shape46) What() string              { return "shape" }
func (g *shape46) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape47 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
}

func (g *shape47) Read(s *tok.Scanner) error { return nil }
func (g *shape47) What() string              { return "shape" }
func (g *shape47) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape48 struct {
	F0 tok.Rule
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape48) Read(s *tok.Scanner) error { return nil }
func (g *shape48) What() string              { return "shape" }
func (g *shape48) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape49 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule `name:"a1"`
}

func (g *shape49) Read(s *tok.Scanner) error { return nil }
func (g *shape49) What() string              { return "shape" }
func (g *shape49) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape50 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule
}

func (g *shape50) Read(s *tok.Scanner) error { return nil }
func (g *shape50) What() string              { return "shape" }
func (g *shape50) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape51 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule `name:""`
}

func (g *shape51) Read(s *tok.Scanner) error { return nil }
func (g *shape51) What() string              { return "shape" }
func (g *shape51) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape52 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule `name:"1x"`
}

func (g *shape52) Read(s *tok.Scanner) error { return nil }
func (g *shape52) What() string              { return "shape" }
func (g *shape52) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape53 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape53) Read(s *tok.Scanner) error { return nil }
func (g *shape53) What() string              { return "shape" }
func (g *shape53) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape54 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule `json:"z1"`
}

func (g *shape54) Read(s *tok.Scanner) error { return nil }
func (g *shape54) What() string              { return "shape" }
func (g *shape54) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape55 struct {
	F0 tok.Rule `name:""`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape55) Read(s *tok.Scanner) error { return nil }
func (g *shape55) What() string              { return "shape" }
func (g *shape55) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape56 struct {
	F0 tok.Rule `name:""`
	f1 tok.Rule `name:"a1"`
}

func (g *shape56) Read(s *tok.Scanner) error { return nil }
func (g *shape56) What() string              { return "shape" }
func (g *shape56) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape57 struct {
	F0 tok.Rule `name:""`
	f1 tok.Rule `name:"1x"`
}

func (g *shape57) Read(s *tok.Scanner) error { return nil }
func (g *shape57) What() string              { return "shape" }
func (g *shape57) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape58 struct {
	F0 tok.Rule  `name:""`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape58) Read(s *tok.Scanner) error { return nil }
func (g *shape58) What() string              { return "shape" }
func (g *shape58) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape59 struct {
	F0 tok.Rule `name:""`
	F1 string   `name:"a1"`
}

func (g *shape59) Read(s *tok.Scanner) error { return nil }
func (g *shape59) What() string              { return "shape" }
func (g *shape59) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape60 struct {
	F0 tok.Rule   `name:""`
	F1 []tok.Rule `name:"1"`
}

func (g *shape60) Read(s *tok.Scanner) error { return nil }
func (g *shape60) What() string              { return "shape" }
func (g *shape60) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape61 struct {
	F0 tok.Rule `name:""`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape61) Read(s *tok.Scanner) error { return nil }
func (g *shape61) What() string              { return "shape" }
func (g *shape61) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape62 struct {
	F0 tok.Rule  `name:""`
	F1 otherRule `name:"a1"`
}

func (g *shape62) Read(s *tok.Scanner) error { return nil }
func (g *shape62) What() string              { return "shape" }
func (g *shape62) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape63 struct {
	F0 tok.Rule   `name:""`
	F1 tok.Reader `name:"a1"`
}

func (g *shape63) Read(s *tok.Scanner) error { return nil }
func (g *shape63) What() string              { return "shape" }
func (g *shape63) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape64 struct {
	F0 tok.Rule            `name:""`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape64) Read(s *tok.Scanner) error { return nil }
func (g *shape64) What() string              { return "shape" }
func (g *shape64) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape65 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape65) Read(s *tok.Scanner) error { return nil }
func (g *shape65) What() string              { return "shape" }
func (g *shape65) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape66 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
}

func (g *shape66) Read(s *tok.Scanner) error { return nil }
func (g *shape66) What() string              { return "shape" }
func (g *shape66) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape67 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:""`
}

func (g *shape67) Read(s *tok.Scanner) error { return nil }
func (g *shape67) What() string              { return "shape" }
func (g *shape67) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape68 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape68) Read(s *tok.Scanner) error { return nil }
func (g *shape68) What() string              { return "shape" }
func (g *shape68) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape69 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape69) Read(s *tok.Scanner) error { return nil }
func (g *shape69) What() string              { return "shape" }
func (g *shape69) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape70 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape70) Read(s *tok.Scanner) error { return nil }
func (g *shape70) What() string              { return "shape" }
func (g *shape70) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape71 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape71) Read(s *tok.Scanner) error { return nil }
func (g *shape71) What() string              { return "shape" }
func (g *shape71) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape72 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape72) Read(s *tok.Scanner) error { return nil }
func (g *shape72) What() string              { return "shape" }
func (g *shape72) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape73 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape73) Read(s *tok.Scanner) error { return nil }
func (g *shape73) What() string              { return "shape" }
func (g *shape73) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape74 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape74) Read(s *tok.Scanner) error { return nil }
func (g *shape74) What() string              { return "shape" }
func (g *shape74) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape75 struct {
	F0 tok.Rule `name:"0x"`
	F1 string   `name:"a1"`
}

func (g *shape75) Read(s *tok.Scanner) error { return nil }
func (g *shape75) What() string              { return "shape" }
func (g *shape75) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape76 struct {
	F0 tok.Rule   `name:"0x"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape76) Read(s *tok.Scanner) error { return nil }
func (g *shape76) What() string              { return "shape" }
func (g *shape76) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape77 struct {
	F0 tok.Rule `name:"0x"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape77) Read(s *tok.Scanner) error { return nil }
func (g *shape77) What() string              { return "shape" }
func (g *shape77) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape78 struct {
	F0 tok.Rule  `name:"0x"`
	F1 otherRule `name:"a1"`
}

func (g *shape78) Read(s *tok.Scanner) error { return nil }
func (g *shape78) What() string              { return "shape" }
func (g *shape78) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape79 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape79) Read(s *tok.Scanner) error { return nil }
func (g *shape79) What() string              { return "shape" }
func (g *shape79) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape80 struct {
	F0 tok.Rule            `name:"0x"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape80) Read(s *tok.Scanner) error { return nil }
func (g *shape80) What() string              { return "shape" }
func (g *shape80) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape81 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule `name:"a1"`
}

func (g *shape81) Read(s *tok.Scanner) error { return nil }
func (g *shape81) What() string              { return "shape" }
func (g *shape81) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape82 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule
}

func (g *shape82) Read(s *tok.Scanner) error { return nil }
func (g *shape82) What() string              { return "shape" }
func (g *shape82) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape83 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule `name:""`
}

func (g *shape83) Read(s *tok.Scanner) error { return nil }
func (g *shape83) What() string              { return "shape" }
func (g *shape83) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape84 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule `name:"1x"`
}

func (g *shape84) Read(s *tok.Scanner) error { return nil }
func (g *shape84) What() string              { return "shape" }
func (g *shape84) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape85 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape85) Read(s *tok.Scanner) error { return nil }
func (g *shape85) What() string              { return "shape" }
func (g *shape85) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape86 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule `json:"z1"`
}

func (g *shape86) Read(s *tok.Scanner) error { return nil }
func (g *shape86) What() string              { return "shape" }
func (g *shape86) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape87 struct {
	F0 tok.Rule `name:"a0 "`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape87) Read(s *tok.Scanner) error { return nil }
func (g *shape87) What() string              { return "shape" }
func (g *shape87) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape88 struct {
	F0 tok.Rule `name:"a0 "`
	f1 tok.Rule `name:"a1"`
}

func (g *shape88) Read(s *tok.Scanner) error { return nil }
func (g *shape88) What() string              { return "shape" }
func (g *shape88) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape89 struct {
	F0 tok.Rule `name:"a0 "`
	f1 tok.Rule `name:"1x"`
}

func (g *shape89) Read(s *tok.Scanner) error { return nil }
func (g *shape89) What() string              { return "shape" }
func (g *shape89) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape90 struct {
	F0 tok.Rule  `name:"a0 "`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape90) Read(s *tok.Scanner) error { return nil }
func (g *shape90) What() string              { return "shape" }
func (g *shape90) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape91 struct {
	F0 tok.Rule `name:"a0 "`
	F1 string   `name:"a1"`
}

func (g *shape91) Read(s *tok.Scanner) error { return nil }
func (g *shape91) What() string              { return "shape" }
func (g *shape91) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape92 struct {
	F0 tok.Rule   `name:"a0 "`
	F1 []tok.Rule `name:"1"`
}

func (g *shape92) Read(s *tok.Scanner) error { return nil }
func (g *shape92) What() string              { return "shape" }
func (g *shape92) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape93 struct {
	F0 tok.Rule `name:"a0 "`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape93) Read(s *tok.Scanner) error { return nil }
func (g *shape93) What() string              { return "shape" }
func (g *shape93) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape94 struct {
	F0 tok.Rule  `name:"a0 "`
	F1 otherRule `name:"a1"`
}

func (g *shape94) Read(s *tok.Scanner) error { return nil }
func (g *shape94) What() string              { return "shape" }
func (g *shape94) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape95 struct {
	F0 tok.Rule   `name:"a0 "`
	F1 tok.Reader `name:"a1"`
}

func (g *shape95) Read(s *tok.Scanner) error { return nil }
func (g *shape95) What() string              { return "shape" }
func (g *shape95) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape96 struct {
	F0 tok.Rule            `name:"a0 "`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape96) Read(s *tok.Scanner) error { return nil }
func (g *shape96) What() string              { return "shape" }
func (g *shape96) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape97 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape97) Read(s *tok.Scanner) error { return nil }
func (g *shape97) What() string              { return "shape" }
func (g *shape97) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape98 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule
}

func (g *shape98) Read(s *tok.Scanner) error { return nil }
func (g *shape98) What() string              { return "shape" }
func (g *shape98) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape99 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:""`
}

func (g *shape99) Read(s *tok.Scanner) error { return nil }
func (g *shape99) What() string              { return "shape" }
func (g *shape99) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape100 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape100) Read(s *tok.Scanner) error { return nil }
func (g *shape100) What() string              { return "shape" }
func (g *shape100) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape101 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape101) Read(s *tok.Scanner) error { return nil }
func (g *shape101) What() string              { return "shape" }
func (g *shape101) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape102 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape102) Read(s *tok.Scanner) error { return nil }
func (g *shape102) What() string              { return "shape" }
func (g *shape102) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape103 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape103) Read(s *tok.Scanner) error { return nil }
func (g *shape103) What() string              { return "shape" }
func (g *shape103) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape104 struct {
	F0 tok.Rule `json:"z0"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape104) Read(s *tok.Scanner) error { return nil }
func (g *shape104) What() string              { return "shape" }
func (g *shape104) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape105 struct {
	F0 tok.Rule `json:"z0"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape105) Read(s *tok.Scanner) error { return nil }
func (g *shape105) What() string              { return "shape" }
func (g *shape105) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape106 struct {
	F0 tok.Rule  `json:"z0"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape106) Read(s *tok.Scanner) error { return nil }
func (g *shape106) What() string              { return "shape" }
func (g *shape106) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape107 struct {
	F0 tok.Rule `json:"z0"`
	F1 string   `name:"a1"`
}

func (g *shape107) Read(s *tok.Scanner) error { return nil }
func (g *shape107) What() string              { return "shape" }
func (g *shape107) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape108 struct {
	F0 tok.Rule   `json:"z0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape108) Read(s *tok.Scanner) error { return nil }
func (g *shape108) What() string              { return "shape" }
func (g *shape108) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape109 struct {
	F0 tok.Rule `json:"z0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape109) Read(s *tok.Scanner) error { return nil }
func (g *shape109) What() string              { return "shape" }
func (g *shape109) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape110 struct {
	F0 tok.Rule  `json:"z0"`
	F1 otherRule `name:"a1"`
}

func (g *shape110) Read(s *tok.Scanner) error { return nil }
func (g *shape110) What() string              { return "shape" }
func (g *shape110) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape111 struct {
	F0 tok.Rule   `json:"z0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape111) Read(s *tok.Scanner) error { return nil }
func (g *shape111) What() string              { return "shape" }
func (g *shape111) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape112 struct {
	F0 tok.Rule            `json:"z0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape112) Read(s *tok.Scanner) error { return nil }
func (g *shape112) What() string              { return "shape" }
func (g *shape112) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape113 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape113) Read(s *tok.Scanner) error { return nil }
func (g *shape113) What() string              { return "shape" }
func (g *shape113) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape114 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
}

func (g *shape114) Read(s *tok.Scanner) error { return nil }
func (g *shape114) What() string              { return "shape" }
func (g *shape114) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape115 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:""`
}

func (g *shape115) Read(s *tok.Scanner) error { return nil }
func (g *shape115) What() string              { return "shape" }
func (g *shape115) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape116 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape116) Read(s *tok.Scanner) error { return nil }
func (g *shape116) What() string              { return "shape" }
func (g *shape116) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape117 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape117) Read(s *tok.Scanner) error { return nil }
func (g *shape117) What() string              { return "shape" }
func (g *shape117) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape118 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape118) Read(s *tok.Scanner) error { return nil }
func (g *shape118) What() string              { return "shape" }
func (g *shape118) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape119 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape119) Read(s *tok.Scanner) error { return nil }
func (g *shape119) What() string              { return "shape" }
func (g *shape119) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape120 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape120) Read(s *tok.Scanner) error { return nil }
func (g *shape120) What() string              { return "shape" }
func (g *shape120) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape121 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape121) Read(s *tok.Scanner) error { return nil }
func (g *shape121) What() string              { return "shape" }
func (g *shape121) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape122 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape122) Read(s *tok.Scanner) error { return nil }
func (g *shape122) What() string              { return "shape" }
func (g *shape122) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape123 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 string   `name:"a1"`
}

func (g *shape123) Read(s *tok.Scanner) error { return nil }
func (g *shape123) What() string              { return "shape" }
func (g *shape123) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape124 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape124) Read(s *tok.Scanner) error { return nil }
func (g *shape124) What() string              { return "shape" }
func (g *shape124) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape125 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape125) Read(s *tok.Scanner) error { return nil }
func (g *shape125) What() string              { return "shape" }
func (g *shape125) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape126 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 otherRule `name:"a1"`
}

func (g *shape126) Read(s *tok.Scanner) error { return nil }
func (g *shape126) What() string              { return "shape" }
func (g *shape126) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape127 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape127) Read(s *tok.Scanner) error { return nil }
func (g *shape127) What() string              { return "shape" }
func (g *shape127) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape128 struct {
	F0 tok.Rule            `json:"z" name:"B0.c-d_e+f"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape128) Read(s *tok.Scanner) error { return nil }
func (g *shape128) What() string              { return "shape" }
func (g *shape128) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape129 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape129) Read(s *tok.Scanner) error { return nil }
func (g *shape129) What() string              { return "shape" }
func (g *shape129) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape130 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
}

func (g *shape130) Read(s *tok.Scanner) error { return nil }
func (g *shape130) What() string              { return "shape" }
func (g *shape130) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape131 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:""`
}

func (g *shape131) Read(s *tok.Scanner) error { return nil }
func (g *shape131) What() string              { return "shape" }
func (g *shape131) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape132 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape132) Read(s *tok.Scanner) error { return nil }
func (g *shape132) What() string              { return "shape" }
func (g *shape132) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape133 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape133) Read(s *tok.Scanner) error { return nil }
func (g *shape133) What() string              { return "shape" }
func (g *shape133) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape134 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape134) Read(s *tok.Scanner) error { return nil }
func (g *shape134) What() string              { return "shape" }
func (g *shape134) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape135 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape135) Read(s *tok.Scanner) error { return nil }
func (g *shape135) What() string              { return "shape" }
func (g *shape135) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape136 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape136) Read(s *tok.Scanner) error { return nil }
func (g *shape136) What() string              { return "shape" }
func (g *shape136) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape137 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape137) Read(s *tok.Scanner) error { return nil }
func (g *shape137) What() string              { return "shape" }
func (g *shape137) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape138 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape138) Read(s *tok.Scanner) error { return nil }
func (g *shape138) What() string              { return "shape" }
func (g *shape138) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape139 struct {
	f0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
}

func (g *shape139) Read(s *tok.Scanner) error { return nil }
func (g *shape139) What() string              { return "shape" }
func (g *shape139) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape140 struct {
	f0 tok.Rule   `name:"a0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape140) Read(s *tok.Scanner) error { return nil }
func (g *shape140) What() string              { return "shape" }
func (g *shape140) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape141 struct {
	f0 tok.Rule `name:"a0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape141) Read(s *tok.Scanner) error { return nil }
func (g *shape141) What() string              { return "shape" }
func (g *shape141) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape142 struct {
	f0 tok.Rule  `name:"a0"`
	F1 otherRule `name:"a1"`
}

func (g *shape142) Read(s *tok.Scanner) error { return nil }
func (g *shape142) What() string              { return "shape" }
func (g *shape142) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape143 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape143) Read(s *tok.Scanner) error { return nil }
func (g *shape143) What() string              { return "shape" }
func (g *shape143) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape144 struct {
	f0 tok.Rule            `name:"a0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape144) Read(s *tok.Scanner) error { return nil }
func (g *shape144) What() string              { return "shape" }
func (g *shape144) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape145 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape145) Read(s *tok.Scanner) error { return nil }
func (g *shape145) What() string              { return "shape" }
func (g *shape145) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape146 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule
}

func (g *shape146) Read(s *tok.Scanner) error { return nil }
func (g *shape146) What() string              { return "shape" }
func (g *shape146) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape147 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:""`
}

func (g *shape147) Read(s *tok.Scanner) error { return nil }
func (g *shape147) What() string              { return "shape" }
func (g *shape147) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape148 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape148) Read(s *tok.Scanner) error { return nil }
func (g *shape148) What() string              { return "shape" }
func (g *shape148) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape149 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape149) Read(s *tok.Scanner) error { return nil }
func (g *shape149) What() string              { return "shape" }
func (g *shape149) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape150 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape150) Read(s *tok.Scanner) error { return nil }
func (g *shape150) What() string              { return "shape" }
func (g *shape150) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape151 struct {
	f0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape151) Read(s *tok.Scanner) error { return nil }
func (g *shape151) What() string              { return "shape" }
func (g *shape151) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape152 struct {
	f0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape152) Read(s *tok.Scanner) error { return nil }
func (g *shape152) What() string              { return "shape" }
func (g *shape152) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape153 struct {
	f0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape153) Read(s *tok.Scanner) error { return nil }
func (g *shape153) What() string              { return "shape" }
func (g *shape153) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape154 struct {
	f0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape154) Read(s *tok.Scanner) error { return nil }
func (g *shape154) What() string              { return "shape" }
func (g *shape154) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape155 struct {
	f0 tok.Rule `name:"0x"`
	F1 string   `name:"a1"`
}

func (g *shape155) Read(s *tok.Scanner) error { return nil }
func (g *shape155) What() string              { return "shape" }
func (g *shape155) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape156 struct {
	f0 tok.Rule   `name:"0x"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape156) Read(s *tok.Scanner) error { return nil }
func (g *shape156) What() string              { return "shape" }
func (g *shape156) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape157 struct {
	f0 tok.Rule `name:"0x"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape157) Read(s *tok.Scanner) error { return nil }
func (g *shape157) What() string              { return "shape" }
func (g *shape157) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape158 struct {
	f0 tok.Rule  `name:"0x"`
	F1 otherRule `name:"a1"`
}

func (g *shape158) Read(s *tok.Scanner) error { return nil }
func (g *shape158) What() string              { return "shape" }
func (g *shape158) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape159 struct {
	f0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape159) Read(s *tok.Scanner) error { return nil }
func (g *shape159) What() string              { return "shape" }
func (g *shape159) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape160 struct {
	f0 tok.Rule            `name:"0x"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape160) Read(s *tok.Scanner) error { return nil }
func (g *shape160) What() string              { return "shape" }
func (g *shape160) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape161 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
}

func (g *shape161) Read(s *tok.Scanner) error { return nil }
func (g *shape161) What() string              { return "shape" }
func (g *shape161) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape162 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
}

func (g *shape162) Read(s *tok.Scanner) error { return nil }
func (g *shape162) What() string              { return "shape" }
func (g *shape162) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape163 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:""`
}

func (g *shape163) Read(s *tok.Scanner) error { return nil }
func (g *shape163) What() string              { return "shape" }
func (g *shape163) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape164 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
}

func (g *shape164) Read(s *tok.Scanner) error { return nil }
func (g *shape164) What() string              { return "shape" }
func (g *shape164) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape165 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1 "`
}

func (g *shape165) Read(s *tok.Scanner) error { return nil }
func (g *shape165) What() string              { return "shape" }
func (g *shape165) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape166 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z1"`
}

func (g *shape166) Read(s *tok.Scanner) error { return nil }
func (g *shape166) What() string              { return "shape" }
func (g *shape166) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape167 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape167) Read(s *tok.Scanner) error { return nil }
func (g *shape167) What() string              { return "shape" }
func (g *shape167) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape168 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
}

func (g *shape168) Read(s *tok.Scanner) error { return nil }
func (g *shape168) What() string              { return "shape" }
func (g *shape168) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape169 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"1x"`
}

func (g *shape169) Read(s *tok.Scanner) error { return nil }
func (g *shape169) What() string              { return "shape" }
func (g *shape169) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape170 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape170) Read(s *tok.Scanner) error { return nil }
func (g *shape170) What() string              { return "shape" }
func (g *shape170) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape171 struct {
	F0 *tok.Rule `name:"a0"`
	F1 string    `name:"a1"`
}

func (g *shape171) Read(s *tok.Scanner) error { return nil }
func (g *shape171) What() string              { return "shape" }
func (g *shape171) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape172 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape172) Read(s *tok.Scanner) error { return nil }
func (g *shape172) What() string              { return "shape" }
func (g *shape172) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape173 struct {
	F0 *tok.Rule `name:"a0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape173) Read(s *tok.Scanner) error { return nil }
func (g *shape173) What() string              { return "shape" }
func (g *shape173) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape174 struct {
	F0 *tok.Rule `name:"a0"`
	F1 otherRule `name:"a1"`
}

func (g *shape174) Read(s *tok.Scanner) error { return nil }
func (g *shape174) What() string              { return "shape" }
func (g *shape174) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape175 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape175) Read(s *tok.Scanner) error { return nil }
func (g *shape175) What() string              { return "shape" }
func (g *shape175) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape176 struct {
	F0 *tok.Rule           `name:"a0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape176) Read(s *tok.Scanner) error { return nil }
func (g *shape176) What() string              { return "shape" }
func (g *shape176) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape177 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
}

func (g *shape177) Read(s *tok.Scanner) error { return nil }
func (g *shape177) What() string              { return "shape" }
func (g *shape177) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape178 struct {
	F0 string `name:"a0"`
	F1 tok.Rule
}

func (g *shape178) Read(s *tok.Scanner) error { return nil }
func (g *shape178) What() string              { return "shape" }
func (g *shape178) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape179 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:""`
}

func (g *shape179) Read(s *tok.Scanner) error { return nil }
func (g *shape179) What() string              { return "shape" }
func (g *shape179) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape180 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"1x"`
}

func (g *shape180) Read(s *tok.Scanner) error { return nil }
func (g *shape180) What() string              { return "shape" }
func (g *shape180) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape181 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1 "`
}

func (g *shape181) Read(s *tok.Scanner) error { return nil }
func (g *shape181) What() string              { return "shape" }
func (g *shape181) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape182 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `json:"z1"`
}

func (g *shape182) Read(s *tok.Scanner) error { return nil }
func (g *shape182) What() string              { return "shape" }
func (g *shape182) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape183 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape183) Read(s *tok.Scanner) error { return nil }
func (g *shape183) What() string              { return "shape" }
func (g *shape183) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape184 struct {
	F0 string   `name:"a0"`
	f1 tok.Rule `name:"a1"`
}

func (g *shape184) Read(s *tok.Scanner) error { return nil }
func (g *shape184) What() string              { return "shape" }
func (g *shape184) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape185 struct {
	F0 string   `name:"a0"`
	f1 tok.Rule `name:"1x"`
}

func (g *shape185) Read(s *tok.Scanner) error { return nil }
func (g *shape185) What() string              { return "shape" }
func (g *shape185) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape186 struct {
	F0 string    `name:"a0"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape186) Read(s *tok.Scanner) error { return nil }
func (g *shape186) What() string              { return "shape" }
func (g *shape186) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape187 struct {
	F0 string `name:"a0"`
	F1 string `name:"a1"`
}

func (g *shape187) Read(s *tok.Scanner) error { return nil }
func (g *shape187) What() string              { return "shape" }
func (g *shape187) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape188 struct {
	F0 string     `name:"a0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape188) Read(s *tok.Scanner) error { return nil }
func (g *shape188) What() string              { return "shape" }
func (g *shape188) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape189 struct {
	F0 string `name:"a0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape189) Read(s *tok.Scanner) error { return nil }
func (g *shape189) What() string              { return "shape" }
func (g *shape189) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape190 struct {
	F0 string    `name:"a0"`
	F1 otherRule `name:"a1"`
}

func (g *shape190) Read(s *tok.Scanner) error { return nil }
func (g *shape190) What() string              { return "shape" }
func (g *shape190) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape191 struct {
	F0 string     `name:"a0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape191) Read(s *tok.Scanner) error { return nil }
func (g *shape191) What() string              { return "shape" }
func (g *shape191) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape192 struct {
	F0 string              `name:"a0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape192) Read(s *tok.Scanner) error { return nil }
func (g *shape192) What() string              { return "shape" }
func (g *shape192) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape193 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule   `name:"a1"`
}

func (g *shape193) Read(s *tok.Scanner) error { return nil }
func (g *shape193) What() string              { return "shape" }
func (g *shape193) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape194 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule
}

func (g *shape194) Read(s *tok.Scanner) error { return nil }
func (g *shape194) What() string              { return "shape" }
func (g *shape194) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape195 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule   `name:""`
}

func (g *shape195) Read(s *tok.Scanner) error { return nil }
func (g *shape195) What() string              { return "shape" }
func (g *shape195) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape196 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule   `name:"1x"`
}

func (g *shape196) Read(s *tok.Scanner) error { return nil }
func (g *shape196) What() string              { return "shape" }
func (g *shape196) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape197 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule   `name:"a1 "`
}

func (g *shape197) Read(s *tok.Scanner) error { return nil }
func (g *shape197) What() string              { return "shape" }
func (g *shape197) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape198 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule   `json:"z1"`
}

func (g *shape198) Read(s *tok.Scanner) error { return nil }
func (g *shape198) What() string              { return "shape" }
func (g *shape198) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape199 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape199) Read(s *tok.Scanner) error { return nil }
func (g *shape199) What() string              { return "shape" }
func (g *shape199) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape200 struct {
	F0 []tok.Rule `name:"1"`
	f1 tok.Rule   `name:"a1"`
}

func (g *shape200) Read(s *tok.Scanner) error { return nil }
func (g *shape200) What() string              { return "shape" }
func (g *shape200) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape201 struct {
	F0 []tok.Rule `name:"1"`
	f1 tok.Rule   `name:"1x"`
}

func (g *shape201) Read(s *tok.Scanner) error { return nil }
func (g *shape201) What() string              { return "shape" }
func (g *shape201) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape202 struct {
	F0 []tok.Rule `name:"1"`
	F1 *tok.Rule  `name:"a1"`
}

func (g *shape202) Read(s *tok.Scanner) error { return nil }
func (g *shape202) What() string              { return "shape" }
func (g *shape202) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape203 struct {
	F0 []tok.Rule `name:"1"`
	F1 string     `name:"a1"`
}

func (g *shape203) Read(s *tok.Scanner) error { return nil }
func (g *shape203) What() string              { return "shape" }
func (g *shape203) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape204 struct {
	F0 []tok.Rule `name:"1"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape204) Read(s *tok.Scanner) error { return nil }
func (g *shape204) What() string              { return "shape" }
func (g *shape204) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape205 struct {
	F0 []tok.Rule `name:"1"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape205) Read(s *tok.Scanner) error { return nil }
func (g *shape205) What() string              { return "shape" }
func (g *shape205) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape206 struct {
	F0 []tok.Rule `name:"1"`
	F1 otherRule  `name:"a1"`
}

func (g *shape206) Read(s *tok.Scanner) error { return nil }
func (g *shape206) What() string              { return "shape" }
func (g *shape206) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape207 struct {
	F0 []tok.Rule `name:"1"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape207) Read(s *tok.Scanner) error { return nil }
func (g *shape207) What() string              { return "shape" }
func (g *shape207) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape208 struct {
	F0 []tok.Rule          `name:"1"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape208) Read(s *tok.Scanner) error { return nil }
func (g *shape208) What() string              { return "shape" }
func (g *shape208) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape209 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule `name:"a1"`
}

func (g *shape209) Read(s *tok.Scanner) error { return nil }
func (g *shape209) What() string              { return "shape" }
func (g *shape209) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape210 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule
}

func (g *shape210) Read(s *tok.Scanner) error { return nil }
func (g *shape210) What() string              { return "shape" }
func (g *shape210) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape211 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule `name:""`
}

func (g *shape211) Read(s *tok.Scanner) error { return nil }
func (g *shape211) What() string              { return "shape" }
func (g *shape211) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape212 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule `name:"1x"`
}

func (g *shape212) Read(s *tok.Scanner) error { return nil }
func (g *shape212) What() string              { return "shape" }
func (g *shape212) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape213 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule `name:"a1 "`
}

func (g *shape213) Read(s *tok.Scanner) error { return nil }
func (g *shape213) What() string              { return "shape" }
func (g *shape213) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape214 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule `json:"z1"`
}

func (g *shape214) Read(s *tok.Scanner) error { return nil }
func (g *shape214) What() string              { return "shape" }
func (g *shape214) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape215 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape215) Read(s *tok.Scanner) error { return nil }
func (g *shape215) What() string              { return "shape" }
func (g *shape215) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape216 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	f1 tok.Rule `name:"a1"`
}

func (g *shape216) Read(s *tok.Scanner) error { return nil }
func (g *shape216) What() string              { return "shape" }
func (g *shape216) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape217 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	f1 tok.Rule `name:"1x"`
}

func (g *shape217) Read(s *tok.Scanner) error { return nil }
func (g *shape217) What() string              { return "shape" }
func (g *shape217) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape218 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 *tok.Rule `name:"a1"`
}

func (g *shape218) Read(s *tok.Scanner) error { return nil }
func (g *shape218) What() string              { return "shape" }
func (g *shape218) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape219 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 string `name:"a1"`
}

func (g *shape219) Read(s *tok.Scanner) error { return nil }
func (g *shape219) What() string              { return "shape" }
func (g *shape219) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape220 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 []tok.Rule `name:"1"`
}

func (g *shape220) Read(s *tok.Scanner) error { return nil }
func (g *shape220) What() string              { return "shape" }
func (g *shape220) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape221 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape221) Read(s *tok.Scanner) error { return nil }
func (g *shape221) What() string              { return "shape" }
func (g *shape221) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape222 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 otherRule `name:"a1"`
}

func (g *shape222) Read(s *tok.Scanner) error { return nil }
func (g *shape222) What() string              { return "shape" }
func (g *shape222) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape223 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 tok.Reader `name:"a1"`
}

func (g *shape223) Read(s *tok.Scanner) error { return nil }
func (g *shape223) What() string              { return "shape" }
func (g *shape223) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape224 struct {
	F0 struct {
		In tok.Rule `name:"in"`
	}
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape224) Read(s *tok.Scanner) error { return nil }
func (g *shape224) What() string              { return "shape" }
func (g *shape224) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape225 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
}

func (g *shape225) Read(s *tok.Scanner) error { return nil }
func (g *shape225) What() string              { return "shape" }
func (g *shape225) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape226 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule
}

func (g *shape226) Read(s *tok.Scanner) error { return nil }
func (g *shape226) What() string              { return "shape" }
func (g *shape226) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape227 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule  `name:""`
}

func (g *shape227) Read(s *tok.Scanner) error { return nil }
func (g *shape227) What() string              { return "shape" }
func (g *shape227) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape228 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
}

func (g *shape228) Read(s *tok.Scanner) error { return nil }
func (g *shape228) What() string              { return "shape" }
func (g *shape228) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape229 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule  `name:"a1 "`
}

func (g *shape229) Read(s *tok.Scanner) error { return nil }
func (g *shape229) What() string              { return "shape" }
func (g *shape229) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape230 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule  `json:"z1"`
}

func (g *shape230) Read(s *tok.Scanner) error { return nil }
func (g *shape230) What() string              { return "shape" }
func (g *shape230) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape231 struct {
	F0 otherRule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape231) Read(s *tok.Scanner) error { return nil }
func (g *shape231) What() string              { return "shape" }
func (g *shape231) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape232 struct {
	F0 otherRule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
}

func (g *shape232) Read(s *tok.Scanner) error { return nil }
func (g *shape232) What() string              { return "shape" }
func (g *shape232) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape233 struct {
	F0 otherRule `name:"a0"`
	f1 tok.Rule  `name:"1x"`
}

func (g *shape233) Read(s *tok.Scanner) error { return nil }
func (g *shape233) What() string              { return "shape" }
func (g *shape233) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape234 struct {
	F0 otherRule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
}

func (g *shape234) Read(s *tok.Scanner) error { return nil }
func (g *shape234) What() string              { return "shape" }
func (g *shape234) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape235 struct {
	F0 otherRule `name:"a0"`
	F1 string    `name:"a1"`
}

func (g *shape235) Read(s *tok.Scanner) error { return nil }
func (g *shape235) What() string              { return "shape" }
func (g *shape235) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape236 struct {
	F0 otherRule  `name:"a0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape236) Read(s *tok.Scanner) error { return nil }
func (g *shape236) What() string              { return "shape" }
func (g *shape236) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape237 struct {
	F0 otherRule `name:"a0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape237) Read(s *tok.Scanner) error { return nil }
func (g *shape237) What() string              { return "shape" }
func (g *shape237) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape238 struct {
	F0 otherRule `name:"a0"`
	F1 otherRule `name:"a1"`
}

func (g *shape238) Read(s *tok.Scanner) error { return nil }
func (g *shape238) What() string              { return "shape" }
func (g *shape238) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape239 struct {
	F0 otherRule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape239) Read(s *tok.Scanner) error { return nil }
func (g *shape239) What() string              { return "shape" }
func (g *shape239) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape240 struct {
	F0 otherRule           `name:"a0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape240) Read(s *tok.Scanner) error { return nil }
func (g *shape240) What() string              { return "shape" }
func (g *shape240) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape241 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
}

func (g *shape241) Read(s *tok.Scanner) error { return nil }
func (g *shape241) What() string              { return "shape" }
func (g *shape241) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape242 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
}

func (g *shape242) Read(s *tok.Scanner) error { return nil }
func (g *shape242) What() string              { return "shape" }
func (g *shape242) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape243 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:""`
}

func (g *shape243) Read(s *tok.Scanner) error { return nil }
func (g *shape243) What() string              { return "shape" }
func (g *shape243) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape244 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
}

func (g *shape244) Read(s *tok.Scanner) error { return nil }
func (g *shape244) What() string              { return "shape" }
func (g *shape244) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape245 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1 "`
}

func (g *shape245) Read(s *tok.Scanner) error { return nil }
func (g *shape245) What() string              { return "shape" }
func (g *shape245) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape246 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z1"`
}

func (g *shape246) Read(s *tok.Scanner) error { return nil }
func (g *shape246) What() string              { return "shape" }
func (g *shape246) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape247 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape247) Read(s *tok.Scanner) error { return nil }
func (g *shape247) What() string              { return "shape" }
func (g *shape247) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape248 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
}

func (g *shape248) Read(s *tok.Scanner) error { return nil }
func (g *shape248) What() string              { return "shape" }
func (g *shape248) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape249 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"1x"`
}

func (g *shape249) Read(s *tok.Scanner) error { return nil }
func (g *shape249) What() string              { return "shape" }
func (g *shape249) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape250 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
}

func (g *shape250) Read(s *tok.Scanner) error { return nil }
func (g *shape250) What() string              { return "shape" }
func (g *shape250) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape251 struct {
	F0 tok.Reader `name:"a0"`
	F1 string     `name:"a1"`
}

func (g *shape251) Read(s *tok.Scanner) error { return nil }
func (g *shape251) What() string              { return "shape" }
func (g *shape251) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape252 struct {
	F0 tok.Reader `name:"a0"`
	F1 []tok.Rule `name:"1"`
}

func (g *shape252) Read(s *tok.Scanner) error { return nil }
func (g *shape252) What() string              { return "shape" }
func (g *shape252) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape253 struct {
	F0 tok.Reader `name:"a0"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape253) Read(s *tok.Scanner) error { return nil }
func (g *shape253) What() string              { return "shape" }
func (g *shape253) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape254 struct {
	F0 tok.Reader `name:"a0"`
	F1 otherRule  `name:"a1"`
}

func (g *shape254) Read(s *tok.Scanner) error { return nil }
func (g *shape254) What() string              { return "shape" }
func (g *shape254) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape255 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
}

func (g *shape255) Read(s *tok.Scanner) error { return nil }
func (g *shape255) What() string              { return "shape" }
func (g *shape255) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape256 struct {
	F0 tok.Reader          `name:"a0"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape256) Read(s *tok.Scanner) error { return nil }
func (g *shape256) What() string              { return "shape" }
func (g *shape256) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape257 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule            `name:"a1"`
}

func (g *shape257) Read(s *tok.Scanner) error { return nil }
func (g *shape257) What() string              { return "shape" }
func (g *shape257) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape258 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule
}

func (g *shape258) Read(s *tok.Scanner) error { return nil }
func (g *shape258) What() string              { return "shape" }
func (g *shape258) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape259 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule            `name:""`
}

func (g *shape259) Read(s *tok.Scanner) error { return nil }
func (g *shape259) What() string              { return "shape" }
func (g *shape259) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape260 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule            `name:"1x"`
}

func (g *shape260) Read(s *tok.Scanner) error { return nil }
func (g *shape260) What() string              { return "shape" }
func (g *shape260) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape261 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule            `name:"a1 "`
}

func (g *shape261) Read(s *tok.Scanner) error { return nil }
func (g *shape261) What() string              { return "shape" }
func (g *shape261) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape262 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule            `json:"z1"`
}

func (g *shape262) Read(s *tok.Scanner) error { return nil }
func (g *shape262) What() string              { return "shape" }
func (g *shape262) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape263 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Rule            `json:"z" name:"B1.c-d_e+f"`
}

func (g *shape263) Read(s *tok.Scanner) error { return nil }
func (g *shape263) What() string              { return "shape" }
func (g *shape263) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape264 struct {
	F0 map[string]tok.Rule `name:"1"`
	f1 tok.Rule            `name:"a1"`
}

func (g *shape264) Read(s *tok.Scanner) error { return nil }
func (g *shape264) What() string              { return "shape" }
func (g *shape264) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape265 struct {
	F0 map[string]tok.Rule `name:"1"`
	f1 tok.Rule            `name:"1x"`
}

func (g *shape265) Read(s *tok.Scanner) error { return nil }
func (g *shape265) What() string              { return "shape" }
func (g *shape265) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape266 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 *tok.Rule           `name:"a1"`
}

func (g *shape266) Read(s *tok.Scanner) error { return nil }
func (g *shape266) What() string              { return "shape" }
func (g *shape266) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape267 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 string              `name:"a1"`
}

func (g *shape267) Read(s *tok.Scanner) error { return nil }
func (g *shape267) What() string              { return "shape" }
func (g *shape267) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape268 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 []tok.Rule          `name:"1"`
}

func (g *shape268) Read(s *tok.Scanner) error { return nil }
func (g *shape268) What() string              { return "shape" }
func (g *shape268) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape269 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 struct {
		In tok.Rule `name:"in"`
	}
}

func (g *shape269) Read(s *tok.Scanner) error { return nil }
func (g *shape269) What() string              { return "shape" }
func (g *shape269) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape270 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 otherRule           `name:"a1"`
}

func (g *shape270) Read(s *tok.Scanner) error { return nil }
func (g *shape270) What() string              { return "shape" }
func (g *shape270) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape271 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 tok.Reader          `name:"a1"`
}

func (g *shape271) Read(s *tok.Scanner) error { return nil }
func (g *shape271) What() string              { return "shape" }
func (g *shape271) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape272 struct {
	F0 map[string]tok.Rule `name:"1"`
	F1 map[string]tok.Rule `name:"1"`
}

func (g *shape272) Read(s *tok.Scanner) error { return nil }
func (g *shape272) What() string              { return "shape" }
func (g *shape272) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape273 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape273) Read(s *tok.Scanner) error { return nil }
func (g *shape273) What() string              { return "shape" }
func (g *shape273) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape274 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape274) Read(s *tok.Scanner) error { return nil }
func (g *shape274) What() string              { return "shape" }
func (g *shape274) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape275 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape275) Read(s *tok.Scanner) error { return nil }
func (g *shape275) What() string              { return "shape" }
func (g *shape275) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape276 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape276) Read(s *tok.Scanner) error { return nil }
func (g *shape276) What() string              { return "shape" }
func (g *shape276) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape277 struct {
	F0 tok.Rule  `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape277) Read(s *tok.Scanner) error { return nil }
func (g *shape277) What() string              { return "shape" }
func (g *shape277) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape278 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape278) Read(s *tok.Scanner) error { return nil }
func (g *shape278) What() string              { return "shape" }
func (g *shape278) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape279 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape279) Read(s *tok.Scanner) error { return nil }
func (g *shape279) What() string              { return "shape" }
func (g *shape279) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape280 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape280) Read(s *tok.Scanner) error { return nil }
func (g *shape280) What() string              { return "shape" }
func (g *shape280) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape281 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape281) Read(s *tok.Scanner) error { return nil }
func (g *shape281) What() string              { return "shape" }
func (g *shape281) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape282 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape282) Read(s *tok.Scanner) error { return nil }
func (g *shape282) What() string              { return "shape" }
func (g *shape282) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape283 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape283) Read(s *tok.Scanner) error { return nil }
func (g *shape283) What() string              { return "shape" }
func (g *shape283) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape284 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape284) Read(s *tok.Scanner) error { return nil }
func (g *shape284) What() string              { return "shape" }
func (g *shape284) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape285 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape285) Read(s *tok.Scanner) error { return nil }
func (g *shape285) What() string              { return "shape" }
func (g *shape285) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape286 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape286) Read(s *tok.Scanner) error { return nil }
func (g *shape286) What() string              { return "shape" }
func (g *shape286) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape287 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape287) Read(s *tok.Scanner) error { return nil }
func (g *shape287) What() string              { return "shape" }
func (g *shape287) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape288 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule
}

func (g *shape288) Read(s *tok.Scanner) error { return nil }
func (g *shape288) What() string              { return "shape" }
func (g *shape288) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape289 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape289) Read(s *tok.Scanner) error { return nil }
func (g *shape289) What() string              { return "shape" }
func (g *shape289) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape290 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape290) Read(s *tok.Scanner) error { return nil }
func (g *shape290) What() string              { return "shape" }
func (g *shape290) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape291 struct {
	F0 tok.Rule  `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape291) Read(s *tok.Scanner) error { return nil }
func (g *shape291) What() string              { return "shape" }
func (g *shape291) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape292 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape292) Read(s *tok.Scanner) error { return nil }
func (g *shape292) What() string              { return "shape" }
func (g *shape292) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape293 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape293) Read(s *tok.Scanner) error { return nil }
func (g *shape293) What() string              { return "shape" }
func (g *shape293) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape294 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape294) Read(s *tok.Scanner) error { return nil }
func (g *shape294) What() string              { return "shape" }
func (g *shape294) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape295 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape295) Read(s *tok.Scanner) error { return nil }
func (g *shape295) What() string              { return "shape" }
func (g *shape295) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape296 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape296) Read(s *tok.Scanner) error { return nil }
func (g *shape296) What() string              { return "shape" }
func (g *shape296) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape297 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape297) Read(s *tok.Scanner) error { return nil }
func (g *shape297) What() string              { return "shape" }
func (g *shape297) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape298 struct {
	F0 tok.Rule  `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape298) Read(s *tok.Scanner) error { return nil }
func (g *shape298) What() string              { return "shape" }
func (g *shape298) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape299 struct {
	F0 tok.Rule   `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape299) Read(s *tok.Scanner) error { return nil }
func (g *shape299) What() string              { return "shape" }
func (g *shape299) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape300 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape300) Read(s *tok.Scanner) error { return nil }
func (g *shape300) What() string              { return "shape" }
func (g *shape300) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape301 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape301) Read(s *tok.Scanner) error { return nil }
func (g *shape301) What() string              { return "shape" }
func (g *shape301) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape302 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape302) Read(s *tok.Scanner) error { return nil }
func (g *shape302) What() string              { return "shape" }
func (g *shape302) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape303 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape303) Read(s *tok.Scanner) error { return nil }
func (g *shape303) What() string              { return "shape" }
func (g *shape303) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape304 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape304) Read(s *tok.Scanner) error { return nil }
func (g *shape304) What() string              { return "shape" }
func (g *shape304) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape305 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape305) Read(s *tok.Scanner) error { return nil }
func (g *shape305) What() string              { return "shape" }
func (g *shape305) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape306 struct {
	F0 tok.Rule   `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape306) Read(s *tok.Scanner) error { return nil }
func (g *shape306) What() string              { return "shape" }
func (g *shape306) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape307 struct {
	F0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape307) Read(s *tok.Scanner) error { return nil }
func (g *shape307) What() string              { return "shape" }
func (g *shape307) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape308 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape308) Read(s *tok.Scanner) error { return nil }
func (g *shape308) What() string              { return "shape" }
func (g *shape308) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape309 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape309) Read(s *tok.Scanner) error { return nil }
func (g *shape309) What() string              { return "shape" }
func (g *shape309) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape310 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape310) Read(s *tok.Scanner) error { return nil }
func (g *shape310) What() string              { return "shape" }
func (g *shape310) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape311 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape311) Read(s *tok.Scanner) error { return nil }
func (g *shape311) What() string              { return "shape" }
func (g *shape311) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape312 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape312) Read(s *tok.Scanner) error { return nil }
func (g *shape312) What() string              { return "shape" }
func (g *shape312) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape313 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape313) Read(s *tok.Scanner) error { return nil }
func (g *shape313) What() string              { return "shape" }
func (g *shape313) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape314 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape314) Read(s *tok.Scanner) error { return nil }
func (g *shape314) What() string              { return "shape" }
func (g *shape314) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape315 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape315) Read(s *tok.Scanner) error { return nil }
func (g *shape315) What() string              { return "shape" }
func (g *shape315) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape316 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape316) Read(s *tok.Scanner) error { return nil }
func (g *shape316) What() string              { return "shape" }
func (g *shape316) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape317 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape317) Read(s *tok.Scanner) error { return nil }
func (g *shape317) What() string              { return "shape" }
func (g *shape317) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape318 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape318) Read(s *tok.Scanner) error { return nil }
func (g *shape318) What() string              { return "shape" }
func (g *shape318) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape319 struct {
	F0 tok.Rule  `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape319) Read(s *tok.Scanner) error { return nil }
func (g *shape319) What() string              { return "shape" }
func (g *shape319) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape320 struct {
	F0 tok.Rule   `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape320) Read(s *tok.Scanner) error { return nil }
func (g *shape320) What() string              { return "shape" }
func (g *shape320) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape321 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape321) Read(s *tok.Scanner) error { return nil }
func (g *shape321) What() string              { return "shape" }
func (g *shape321) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape322 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape322) Read(s *tok.Scanner) error { return nil }
func (g *shape322) What() string              { return "shape" }
func (g *shape322) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape323 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape323) Read(s *tok.Scanner) error { return nil }
func (g *shape323) What() string              { return "shape" }
func (g *shape323) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape324 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape324) Read(s *tok.Scanner) error { return nil }
func (g *shape324) What() string              { return "shape" }
func (g *shape324) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape325 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape325) Read(s *tok.Scanner) error { return nil }
func (g *shape325) What() string              { return "shape" }
func (g *shape325) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape326 struct {
	F0 tok.Rule
	F1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape326) Read(s *tok.Scanner) error { return nil }
func (g *shape326) What() string              { return "shape" }
func (g *shape326) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape327 struct {
	F0 tok.Rule
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape327) Read(s *tok.Scanner) error { return nil }
func (g *shape327) What() string              { return "shape" }
func (g *shape327) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape328 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape328) Read(s *tok.Scanner) error { return nil }
func (g *shape328) What() string              { return "shape" }
func (g *shape328) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape329 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape329) Read(s *tok.Scanner) error { return nil }
func (g *shape329) What() string              { return "shape" }
func (g *shape329) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape330 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape330) Read(s *tok.Scanner) error { return nil }
func (g *shape330) What() string              { return "shape" }
func (g *shape330) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape331 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape331) Read(s *tok.Scanner) error { return nil }
func (g *shape331) What() string              { return "shape" }
func (g *shape331) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape332 struct {
	F0 tok.Rule
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape332) Read(s *tok.Scanner) error { return nil }
func (g *shape332) What() string              { return "shape" }
func (g *shape332) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape333 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape333) Read(s *tok.Scanner) error { return nil }
func (g *shape333) What() string              { return "shape" }
func (g *shape333) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape334 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape334) Read(s *tok.Scanner) error { return nil }
func (g *shape334) What() string              { return "shape" }
func (g *shape334) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape335 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape335) Read(s *tok.Scanner) error { return nil }
func (g *shape335) What() string              { return "shape" }
func (g *shape335) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape336 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape336) Read(s *tok.Scanner) error { return nil }
func (g *shape336) What() string              { return "shape" }
func (g *shape336) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape337 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule
}

func (g *shape337) Read(s *tok.Scanner) error { return nil }
func (g *shape337) What() string              { return "shape" }
func (g *shape337) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape338 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape338) Read(s *tok.Scanner) error { return nil }
func (g *shape338) What() string              { return "shape" }
func (g *shape338) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape339 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape339) Read(s *tok.Scanner) error { return nil }
func (g *shape339) What() string              { return "shape" }
func (g *shape339) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape340 struct {
	F0 tok.Rule
	F1 tok.Rule  `name:"1x"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape340) Read(s *tok.Scanner) error { return nil }
func (g *shape340) What() string              { return "shape" }
func (g *shape340) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape341 struct {
	F0 tok.Rule
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape341) Read(s *tok.Scanner) error { return nil }
func (g *shape341) What() string              { return "shape" }
func (g *shape341) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape342 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape342) Read(s *tok.Scanner) error { return nil }
func (g *shape342) What() string              { return "shape" }
func (g *shape342) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape343 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape343) Read(s *tok.Scanner) error { return nil }
func (g *shape343) What() string              { return "shape" }
func (g *shape343) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape344 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape344) Read(s *tok.Scanner) error { return nil }
func (g *shape344) What() string              { return "shape" }
func (g *shape344) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape345 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape345) Read(s *tok.Scanner) error { return nil }
func (g *shape345) What() string              { return "shape" }
func (g *shape345) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape346 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape346) Read(s *tok.Scanner) error { return nil }
func (g *shape346) What() string              { return "shape" }
func (g *shape346) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape347 struct {
	F0 tok.Rule
	f1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape347) Read(s *tok.Scanner) error { return nil }
func (g *shape347) What() string              { return "shape" }
func (g *shape347) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape348 struct {
	F0 tok.Rule
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape348) Read(s *tok.Scanner) error { return nil }
func (g *shape348) What() string              { return "shape" }
func (g *shape348) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape349 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape349) Read(s *tok.Scanner) error { return nil }
func (g *shape349) What() string              { return "shape" }
func (g *shape349) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape350 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape350) Read(s *tok.Scanner) error { return nil }
func (g *shape350) What() string              { return "shape" }
func (g *shape350) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape351 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape351) Read(s *tok.Scanner) error { return nil }
func (g *shape351) What() string              { return "shape" }
func (g *shape351) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape352 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape352) Read(s *tok.Scanner) error { return nil }
func (g *shape352) What() string              { return "shape" }
func (g *shape352) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape353 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape353) Read(s *tok.Scanner) error { return nil }
func (g *shape353) What() string              { return "shape" }
func (g *shape353) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape354 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape354) Read(s *tok.Scanner) error { return nil }
func (g *shape354) What() string              { return "shape" }
func (g *shape354) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape355 struct {
	F0 tok.Rule
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape355) Read(s *tok.Scanner) error { return nil }
func (g *shape355) What() string              { return "shape" }
func (g *shape355) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape356 struct {
	F0 tok.Rule
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape356) Read(s *tok.Scanner) error { return nil }
func (g *shape356) What() string              { return "shape" }
func (g *shape356) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape357 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape357) Read(s *tok.Scanner) error { return nil }
func (g *shape357) What() string              { return "shape" }
func (g *shape357) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape358 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape358) Read(s *tok.Scanner) error { return nil }
func (g *shape358) What() string              { return "shape" }
func (g *shape358) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape359 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape359) Read(s *tok.Scanner) error { return nil }
func (g *shape359) What() string              { return "shape" }
func (g *shape359) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape360 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape360) Read(s *tok.Scanner) error { return nil }
func (g *shape360) What() string              { return "shape" }
func (g *shape360) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape361 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape361) Read(s *tok.Scanner) error { return nil }
func (g *shape361) What() string              { return "shape" }
func (g *shape361) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape362 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape362) Read(s *tok.Scanner) error { return nil }
func (g *shape362) What() string              { return "shape" }
func (g *shape362) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape363 struct {
	F0 tok.Rule
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape363) Read(s *tok.Scanner) error { return nil }
func (g *shape363) What() string              { return "shape" }
func (g *shape363) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape364 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape364) Read(s *tok.Scanner) error { return nil }
func (g *shape364) What() string              { return "shape" }
func (g *shape364) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape365 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape365) Read(s *tok.Scanner) error { return nil }
func (g *shape365) What() string              { return "shape" }
func (g *shape365) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape366 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape366) Read(s *tok.Scanner) error { return nil }
func (g *shape366) What() string              { return "shape" }
func (g *shape366) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape367 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape367) Read(s *tok.Scanner) error { return nil }
func (g *shape367) What() string              { return "shape" }
func (g *shape367) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape368 struct {
	F0 tok.Rule
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape368) Read(s *tok.Scanner) error { return nil }
func (g *shape368) What() string              { return "shape" }
func (g *shape368) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape369 struct {
	F0 tok.Rule
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape369) Read(s *tok.Scanner) error { return nil }
func (g *shape369) What() string              { return "shape" }
func (g *shape369) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape370 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape370) Read(s *tok.Scanner) error { return nil }
func (g *shape370) What() string              { return "shape" }
func (g *shape370) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape371 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape371) Read(s *tok.Scanner) error { return nil }
func (g *shape371) What() string              { return "shape" }
func (g *shape371) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape372 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape372) Read(s *tok.Scanner) error { return nil }
func (g *shape372) What() string              { return "shape" }
func (g *shape372) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape373 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape373) Read(s *tok.Scanner) error { return nil }
func (g *shape373) What() string              { return "shape" }
func (g *shape373) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape374 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape374) Read(s *tok.Scanner) error { return nil }
func (g *shape374) What() string              { return "shape" }
func (g *shape374) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape375 struct {
	F0 tok.Rule  `name:"0x"`
	F1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape375) Read(s *tok.Scanner) error { return nil }
func (g *shape375) What() string              { return "shape" }
func (g *shape375) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape376 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape376) Read(s *tok.Scanner) error { return nil }
func (g *shape376) What() string              { return "shape" }
func (g *shape376) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape377 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape377) Read(s *tok.Scanner) error { return nil }
func (g *shape377) What() string              { return "shape" }
func (g *shape377) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape378 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape378) Read(s *tok.Scanner) error { return nil }
func (g *shape378) What() string              { return "shape" }
func (g *shape378) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape379 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape379) Read(s *tok.Scanner) error { return nil }
func (g *shape379) What() string              { return "shape" }
func (g *shape379) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape380 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape380) Read(s *tok.Scanner) error { return nil }
func (g *shape380) What() string              { return "shape" }
func (g *shape380) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape381 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape381) Read(s *tok.Scanner) error { return nil }
func (g *shape381) What() string              { return "shape" }
func (g *shape381) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape382 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape382) Read(s *tok.Scanner) error { return nil }
func (g *shape382) What() string              { return "shape" }
func (g *shape382) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape383 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape383) Read(s *tok.Scanner) error { return nil }
func (g *shape383) What() string              { return "shape" }
func (g *shape383) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape384 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape384) Read(s *tok.Scanner) error { return nil }
func (g *shape384) What() string              { return "shape" }
func (g *shape384) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape385 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape385) Read(s *tok.Scanner) error { return nil }
func (g *shape385) What() string              { return "shape" }
func (g *shape385) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape386 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule
}

func (g *shape386) Read(s *tok.Scanner) error { return nil }
func (g *shape386) What() string              { return "shape" }
func (g *shape386) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape387 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape387) Read(s *tok.Scanner) error { return nil }
func (g *shape387) What() string              { return "shape" }
func (g *shape387) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape388 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape388) Read(s *tok.Scanner) error { return nil }
func (g *shape388) What() string              { return "shape" }
func (g *shape388) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape389 struct {
	F0 tok.Rule  `name:"0x"`
	F1 tok.Rule  `name:"1x"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape389) Read(s *tok.Scanner) error { return nil }
func (g *shape389) What() string              { return "shape" }
func (g *shape389) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape390 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape390) Read(s *tok.Scanner) error { return nil }
func (g *shape390) What() string              { return "shape" }
func (g *shape390) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape391 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape391) Read(s *tok.Scanner) error { return nil }
func (g *shape391) What() string              { return "shape" }
func (g *shape391) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape392 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape392) Read(s *tok.Scanner) error { return nil }
func (g *shape392) What() string              { return "shape" }
func (g *shape392) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape393 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape393) Read(s *tok.Scanner) error { return nil }
func (g *shape393) What() string              { return "shape" }
func (g *shape393) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape394 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape394) Read(s *tok.Scanner) error { return nil }
func (g *shape394) What() string              { return "shape" }
func (g *shape394) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape395 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape395) Read(s *tok.Scanner) error { return nil }
func (g *shape395) What() string              { return "shape" }
func (g *shape395) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape396 struct {
	F0 tok.Rule  `name:"0x"`
	f1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape396) Read(s *tok.Scanner) error { return nil }
func (g *shape396) What() string              { return "shape" }
func (g *shape396) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape397 struct {
	F0 tok.Rule   `name:"0x"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape397) Read(s *tok.Scanner) error { return nil }
func (g *shape397) What() string              { return "shape" }
func (g *shape397) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape398 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape398) Read(s *tok.Scanner) error { return nil }
func (g *shape398) What() string              { return "shape" }
func (g *shape398) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape399 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape399) Read(s *tok.Scanner) error { return nil }
func (g *shape399) What() string              { return "shape" }
func (g *shape399) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape400 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape400) Read(s *tok.Scanner) error { return nil }
func (g *shape400) What() string              { return "shape" }
func (g *shape400) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape401 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape401) Read(s *tok.Scanner) error { return nil }
func (g *shape401) What() string              { return "shape" }
func (g *shape401) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape402 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape402) Read(s *tok.Scanner) error { return nil }
func (g *shape402) What() string              { return "shape" }
func (g *shape402) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape403 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape403) Read(s *tok.Scanner) error { return nil }
func (g *shape403) What() string              { return "shape" }
func (g *shape403) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape404 struct {
	F0 tok.Rule   `name:"0x"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape404) Read(s *tok.Scanner) error { return nil }
func (g *shape404) What() string              { return "shape" }
func (g *shape404) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape405 struct {
	F0 tok.Rule  `name:"0x"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape405) Read(s *tok.Scanner) error { return nil }
func (g *shape405) What() string              { return "shape" }
func (g *shape405) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape406 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape406) Read(s *tok.Scanner) error { return nil }
func (g *shape406) What() string              { return "shape" }
func (g *shape406) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape407 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape407) Read(s *tok.Scanner) error { return nil }
func (g *shape407) What() string              { return "shape" }
func (g *shape407) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape408 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape408) Read(s *tok.Scanner) error { return nil }
func (g *shape408) What() string              { return "shape" }
func (g *shape408) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape409 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape409) Read(s *tok.Scanner) error { return nil }
func (g *shape409) What() string              { return "shape" }
func (g *shape409) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape410 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape410) Read(s *tok.Scanner) error { return nil }
func (g *shape410) What() string              { return "shape" }
func (g *shape410) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape411 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape411) Read(s *tok.Scanner) error { return nil }
func (g *shape411) What() string              { return "shape" }
func (g *shape411) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape412 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape412) Read(s *tok.Scanner) error { return nil }
func (g *shape412) What() string              { return "shape" }
func (g *shape412) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape413 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape413) Read(s *tok.Scanner) error { return nil }
func (g *shape413) What() string              { return "shape" }
func (g *shape413) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape414 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape414) Read(s *tok.Scanner) error { return nil }
func (g *shape414) What() string              { return "shape" }
func (g *shape414) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape415 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape415) Read(s *tok.Scanner) error { return nil }
func (g *shape415) What() string              { return "shape" }
func (g *shape415) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape416 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape416) Read(s *tok.Scanner) error { return nil }
func (g *shape416) What() string              { return "shape" }
func (g *shape416) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape417 struct {
	F0 tok.Rule  `name:"0x"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape417) Read(s *tok.Scanner) error { return nil }
func (g *shape417) What() string              { return "shape" }
func (g *shape417) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape418 struct {
	F0 tok.Rule   `name:"0x"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape418) Read(s *tok.Scanner) error { return nil }
func (g *shape418) What() string              { return "shape" }
func (g *shape418) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape419 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape419) Read(s *tok.Scanner) error { return nil }
func (g *shape419) What() string              { return "shape" }
func (g *shape419) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape420 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape420) Read(s *tok.Scanner) error { return nil }
func (g *shape420) What() string              { return "shape" }
func (g *shape420) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape421 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape421) Read(s *tok.Scanner) error { return nil }
func (g *shape421) What() string              { return "shape" }
func (g *shape421) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape422 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape422) Read(s *tok.Scanner) error { return nil }
func (g *shape422) What() string              { return "shape" }
func (g *shape422) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape423 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape423) Read(s *tok.Scanner) error { return nil }
func (g *shape423) What() string              { return "shape" }
func (g *shape423) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape424 struct {
	f0 tok.Rule  `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape424) Read(s *tok.Scanner) error { return nil }
func (g *shape424) What() string              { return "shape" }
func (g *shape424) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape425 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape425) Read(s *tok.Scanner) error { return nil }
func (g *shape425) What() string              { return "shape" }
func (g *shape425) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape426 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape426) Read(s *tok.Scanner) error { return nil }
func (g *shape426) What() string              { return "shape" }
func (g *shape426) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape427 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape427) Read(s *tok.Scanner) error { return nil }
func (g *shape427) What() string              { return "shape" }
func (g *shape427) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape428 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape428) Read(s *tok.Scanner) error { return nil }
func (g *shape428) What() string              { return "shape" }
func (g *shape428) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape429 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape429) Read(s *tok.Scanner) error { return nil }
func (g *shape429) What() string              { return "shape" }
func (g *shape429) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape430 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape430) Read(s *tok.Scanner) error { return nil }
func (g *shape430) What() string              { return "shape" }
func (g *shape430) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape431 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape431) Read(s *tok.Scanner) error { return nil }
func (g *shape431) What() string              { return "shape" }
func (g *shape431) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape432 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape432) Read(s *tok.Scanner) error { return nil }
func (g *shape432) What() string              { return "shape" }
func (g *shape432) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape433 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape433) Read(s *tok.Scanner) error { return nil }
func (g *shape433) What() string              { return "shape" }
func (g *shape433) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape434 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape434) Read(s *tok.Scanner) error { return nil }
func (g *shape434) What() string              { return "shape" }
func (g *shape434) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape435 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule
}

func (g *shape435) Read(s *tok.Scanner) error { return nil }
func (g *shape435) What() string              { return "shape" }
func (g *shape435) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape436 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape436) Read(s *tok.Scanner) error { return nil }
func (g *shape436) What() string              { return "shape" }
func (g *shape436) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape437 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape437) Read(s *tok.Scanner) error { return nil }
func (g *shape437) What() string              { return "shape" }
func (g *shape437) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape438 struct {
	f0 tok.Rule  `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape438) Read(s *tok.Scanner) error { return nil }
func (g *shape438) What() string              { return "shape" }
func (g *shape438) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape439 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape439) Read(s *tok.Scanner) error { return nil }
func (g *shape439) What() string              { return "shape" }
func (g *shape439) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape440 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape440) Read(s *tok.Scanner) error { return nil }
func (g *shape440) What() string              { return "shape" }
func (g *shape440) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape441 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape441) Read(s *tok.Scanner) error { return nil }
func (g *shape441) What() string              { return "shape" }
func (g *shape441) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape442 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape442) Read(s *tok.Scanner) error { return nil }
func (g *shape442) What() string              { return "shape" }
func (g *shape442) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape443 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape443) Read(s *tok.Scanner) error { return nil }
func (g *shape443) What() string              { return "shape" }
func (g *shape443) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape444 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape444) Read(s *tok.Scanner) error { return nil }
func (g *shape444) What() string              { return "shape" }
func (g *shape444) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape445 struct {
	f0 tok.Rule  `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape445) Read(s *tok.Scanner) error { return nil }
func (g *shape445) What() string              { return "shape" }
func (g *shape445) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape446 struct {
	f0 tok.Rule   `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape446) Read(s *tok.Scanner) error { return nil }
func (g *shape446) What() string              { return "shape" }
func (g *shape446) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape447 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape447) Read(s *tok.Scanner) error { return nil }
func (g *shape447) What() string              { return "shape" }
func (g *shape447) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape448 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape448) Read(s *tok.Scanner) error { return nil }
func (g *shape448) What() string              { return "shape" }
func (g *shape448) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape449 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape449) Read(s *tok.Scanner) error { return nil }
func (g *shape449) What() string              { return "shape" }
func (g *shape449) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape450 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape450) Read(s *tok.Scanner) error { return nil }
func (g *shape450) What() string              { return "shape" }
func (g *shape450) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape451 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape451) Read(s *tok.Scanner) error { return nil }
func (g *shape451) What() string              { return "shape" }
func (g *shape451) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape452 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape452) Read(s *tok.Scanner) error { return nil }
func (g *shape452) What() string              { return "shape" }
func (g *shape452) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape453 struct {
	f0 tok.Rule   `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape453) Read(s *tok.Scanner) error { return nil }
func (g *shape453) What() string              { return "shape" }
func (g *shape453) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape454 struct {
	f0 tok.Rule  `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape454) Read(s *tok.Scanner) error { return nil }
func (g *shape454) What() string              { return "shape" }
func (g *shape454) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape455 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape455) Read(s *tok.Scanner) error { return nil }
func (g *shape455) What() string              { return "shape" }
func (g *shape455) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape456 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape456) Read(s *tok.Scanner) error { return nil }
func (g *shape456) What() string              { return "shape" }
func (g *shape456) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape457 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape457) Read(s *tok.Scanner) error { return nil }
func (g *shape457) What() string              { return "shape" }
func (g *shape457) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape458 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape458) Read(s *tok.Scanner) error { return nil }
func (g *shape458) What() string              { return "shape" }
func (g *shape458) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape459 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape459) Read(s *tok.Scanner) error { return nil }
func (g *shape459) What() string              { return "shape" }
func (g *shape459) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape460 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape460) Read(s *tok.Scanner) error { return nil }
func (g *shape460) What() string              { return "shape" }
func (g *shape460) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape461 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape461) Read(s *tok.Scanner) error { return nil }
func (g *shape461) What() string              { return "shape" }
func (g *shape461) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape462 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape462) Read(s *tok.Scanner) error { return nil }
func (g *shape462) What() string              { return "shape" }
func (g *shape462) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape463 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape463) Read(s *tok.Scanner) error { return nil }
func (g *shape463) What() string              { return "shape" }
func (g *shape463) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape464 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape464) Read(s *tok.Scanner) error { return nil }
func (g *shape464) What() string              { return "shape" }
func (g *shape464) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape465 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape465) Read(s *tok.Scanner) error { return nil }
func (g *shape465) What() string              { return "shape" }
func (g *shape465) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape466 struct {
	f0 tok.Rule  `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape466) Read(s *tok.Scanner) error { return nil }
func (g *shape466) What() string              { return "shape" }
func (g *shape466) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape467 struct {
	f0 tok.Rule   `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape467) Read(s *tok.Scanner) error { return nil }
func (g *shape467) What() string              { return "shape" }
func (g *shape467) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape468 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape468) Read(s *tok.Scanner) error { return nil }
func (g *shape468) What() string              { return "shape" }
func (g *shape468) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape469 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape469) Read(s *tok.Scanner) error { return nil }
func (g *shape469) What() string              { return "shape" }
func (g *shape469) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape470 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 tok.Rule
}

func (g *shape470) Read(s *tok.Scanner) error { return nil }
func (g *shape470) What() string              { return "shape" }
func (g *shape470) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape471 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape471) Read(s *tok.Scanner) error { return nil }
func (g *shape471) What() string              { return "shape" }
func (g *shape471) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape472 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape472) Read(s *tok.Scanner) error { return nil }
func (g *shape472) What() string              { return "shape" }
func (g *shape472) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape473 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape473) Read(s *tok.Scanner) error { return nil }
func (g *shape473) What() string              { return "shape" }
func (g *shape473) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape474 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape474) Read(s *tok.Scanner) error { return nil }
func (g *shape474) What() string              { return "shape" }
func (g *shape474) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape475 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape475) Read(s *tok.Scanner) error { return nil }
func (g *shape475) What() string              { return "shape" }
func (g *shape475) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape476 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape476) Read(s *tok.Scanner) error { return nil }
func (g *shape476) What() string              { return "shape" }
func (g *shape476) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape477 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape477) Read(s *tok.Scanner) error { return nil }
func (g *shape477) What() string              { return "shape" }
func (g *shape477) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape478 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape478) Read(s *tok.Scanner) error { return nil }
func (g *shape478) What() string              { return "shape" }
func (g *shape478) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape479 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape479) Read(s *tok.Scanner) error { return nil }
func (g *shape479) What() string              { return "shape" }
func (g *shape479) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape480 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape480) Read(s *tok.Scanner) error { return nil }
func (g *shape480) What() string              { return "shape" }
func (g *shape480) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape481 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape481) Read(s *tok.Scanner) error { return nil }
func (g *shape481) What() string              { return "shape" }
func (g *shape481) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape482 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape482) Read(s *tok.Scanner) error { return nil }
func (g *shape482) What() string              { return "shape" }
func (g *shape482) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape483 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape483) Read(s *tok.Scanner) error { return nil }
func (g *shape483) What() string              { return "shape" }
func (g *shape483) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape484 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 tok.Rule
}

func (g *shape484) Read(s *tok.Scanner) error { return nil }
func (g *shape484) What() string              { return "shape" }
func (g *shape484) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape485 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape485) Read(s *tok.Scanner) error { return nil }
func (g *shape485) What() string              { return "shape" }
func (g *shape485) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape486 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape486) Read(s *tok.Scanner) error { return nil }
func (g *shape486) What() string              { return "shape" }
func (g *shape486) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape487 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape487) Read(s *tok.Scanner) error { return nil }
func (g *shape487) What() string              { return "shape" }
func (g *shape487) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape488 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape488) Read(s *tok.Scanner) error { return nil }
func (g *shape488) What() string              { return "shape" }
func (g *shape488) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape489 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `name:"1x"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape489) Read(s *tok.Scanner) error { return nil }
func (g *shape489) What() string              { return "shape" }
func (g *shape489) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape490 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape490) Read(s *tok.Scanner) error { return nil }
func (g *shape490) What() string              { return "shape" }
func (g *shape490) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape491 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 tok.Rule
}

func (g *shape491) Read(s *tok.Scanner) error { return nil }
func (g *shape491) What() string              { return "shape" }
func (g *shape491) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape492 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape492) Read(s *tok.Scanner) error { return nil }
func (g *shape492) What() string              { return "shape" }
func (g *shape492) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape493 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape493) Read(s *tok.Scanner) error { return nil }
func (g *shape493) What() string              { return "shape" }
func (g *shape493) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape494 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape494) Read(s *tok.Scanner) error { return nil }
func (g *shape494) What() string              { return "shape" }
func (g *shape494) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape495 struct {
	F0 *tok.Rule  `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape495) Read(s *tok.Scanner) error { return nil }
func (g *shape495) What() string              { return "shape" }
func (g *shape495) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape496 struct {
	F0 *tok.Rule `name:"a0"`
	f1 tok.Rule  `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape496) Read(s *tok.Scanner) error { return nil }
func (g *shape496) What() string              { return "shape" }
func (g *shape496) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape497 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape497) Read(s *tok.Scanner) error { return nil }
func (g *shape497) What() string              { return "shape" }
func (g *shape497) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape498 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape498) Read(s *tok.Scanner) error { return nil }
func (g *shape498) What() string              { return "shape" }
func (g *shape498) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape499 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape499) Read(s *tok.Scanner) error { return nil }
func (g *shape499) What() string              { return "shape" }
func (g *shape499) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape500 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape500) Read(s *tok.Scanner) error { return nil }
func (g *shape500) What() string              { return "shape" }
func (g *shape500) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape501 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape501) Read(s *tok.Scanner) error { return nil }
func (g *shape501) What() string              { return "shape" }
func (g *shape501) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape502 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape502) Read(s *tok.Scanner) error { return nil }
func (g *shape502) What() string              { return "shape" }
func (g *shape502) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape503 struct {
	F0 *tok.Rule `name:"a0"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape503) Read(s *tok.Scanner) error { return nil }
func (g *shape503) What() string              { return "shape" }
func (g *shape503) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape504 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape504) Read(s *tok.Scanner) error { return nil }
func (g *shape504) What() string              { return "shape" }
func (g *shape504) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape505 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape505) Read(s *tok.Scanner) error { return nil }
func (g *shape505) What() string              { return "shape" }
func (g *shape505) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape506 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape506) Read(s *tok.Scanner) error { return nil }
func (g *shape506) What() string              { return "shape" }
func (g *shape506) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape507 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape507) Read(s *tok.Scanner) error { return nil }
func (g *shape507) What() string              { return "shape" }
func (g *shape507) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape508 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape508) Read(s *tok.Scanner) error { return nil }
func (g *shape508) What() string              { return "shape" }
func (g *shape508) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape509 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape509) Read(s *tok.Scanner) error { return nil }
func (g *shape509) What() string              { return "shape" }
func (g *shape509) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape510 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape510) Read(s *tok.Scanner) error { return nil }
func (g *shape510) What() string              { return "shape" }
func (g *shape510) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape511 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape511) Read(s *tok.Scanner) error { return nil }
func (g *shape511) What() string              { return "shape" }
func (g *shape511) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape512 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape512) Read(s *tok.Scanner) error { return nil }
func (g *shape512) What() string              { return "shape" }
func (g *shape512) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape513 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape513) Read(s *tok.Scanner) error { return nil }
func (g *shape513) What() string              { return "shape" }
func (g *shape513) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape514 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape514) Read(s *tok.Scanner) error { return nil }
func (g *shape514) What() string              { return "shape" }
func (g *shape514) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape515 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape515) Read(s *tok.Scanner) error { return nil }
func (g *shape515) What() string              { return "shape" }
func (g *shape515) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape516 struct {
	F0 *tok.Rule  `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape516) Read(s *tok.Scanner) error { return nil }
func (g *shape516) What() string              { return "shape" }
func (g *shape516) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape517 struct {
	F0 *tok.Rule `name:"a0"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape517) Read(s *tok.Scanner) error { return nil }
func (g *shape517) What() string              { return "shape" }
func (g *shape517) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape518 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape518) Read(s *tok.Scanner) error { return nil }
func (g *shape518) What() string              { return "shape" }
func (g *shape518) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape519 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Rule
}

func (g *shape519) Read(s *tok.Scanner) error { return nil }
func (g *shape519) What() string              { return "shape" }
func (g *shape519) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape520 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape520) Read(s *tok.Scanner) error { return nil }
func (g *shape520) What() string              { return "shape" }
func (g *shape520) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape521 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape521) Read(s *tok.Scanner) error { return nil }
func (g *shape521) What() string              { return "shape" }
func (g *shape521) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape522 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape522) Read(s *tok.Scanner) error { return nil }
func (g *shape522) What() string              { return "shape" }
func (g *shape522) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape523 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape523) Read(s *tok.Scanner) error { return nil }
func (g *shape523) What() string              { return "shape" }
func (g *shape523) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape524 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape524) Read(s *tok.Scanner) error { return nil }
func (g *shape524) What() string              { return "shape" }
func (g *shape524) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape525 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape525) Read(s *tok.Scanner) error { return nil }
func (g *shape525) What() string              { return "shape" }
func (g *shape525) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape526 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape526) Read(s *tok.Scanner) error { return nil }
func (g *shape526) What() string              { return "shape" }
func (g *shape526) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape527 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape527) Read(s *tok.Scanner) error { return nil }
func (g *shape527) What() string              { return "shape" }
func (g *shape527) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape528 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape528) Read(s *tok.Scanner) error { return nil }
func (g *shape528) What() string              { return "shape" }
func (g *shape528) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape529 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape529) Read(s *tok.Scanner) error { return nil }
func (g *shape529) What() string              { return "shape" }
func (g *shape529) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape530 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape530) Read(s *tok.Scanner) error { return nil }
func (g *shape530) What() string              { return "shape" }
func (g *shape530) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape531 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape531) Read(s *tok.Scanner) error { return nil }
func (g *shape531) What() string              { return "shape" }
func (g *shape531) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape532 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape532) Read(s *tok.Scanner) error { return nil }
func (g *shape532) What() string              { return "shape" }
func (g *shape532) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape533 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Rule
}

func (g *shape533) Read(s *tok.Scanner) error { return nil }
func (g *shape533) What() string              { return "shape" }
func (g *shape533) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape534 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape534) Read(s *tok.Scanner) error { return nil }
func (g *shape534) What() string              { return "shape" }
func (g *shape534) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape535 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape535) Read(s *tok.Scanner) error { return nil }
func (g *shape535) What() string              { return "shape" }
func (g *shape535) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape536 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape536) Read(s *tok.Scanner) error { return nil }
func (g *shape536) What() string              { return "shape" }
func (g *shape536) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape537 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape537) Read(s *tok.Scanner) error { return nil }
func (g *shape537) What() string              { return "shape" }
func (g *shape537) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape538 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape538) Read(s *tok.Scanner) error { return nil }
func (g *shape538) What() string              { return "shape" }
func (g *shape538) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape539 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape539) Read(s *tok.Scanner) error { return nil }
func (g *shape539) What() string              { return "shape" }
func (g *shape539) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape540 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Rule
}

func (g *shape540) Read(s *tok.Scanner) error { return nil }
func (g *shape540) What() string              { return "shape" }
func (g *shape540) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape541 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape541) Read(s *tok.Scanner) error { return nil }
func (g *shape541) What() string              { return "shape" }
func (g *shape541) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape542 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape542) Read(s *tok.Scanner) error { return nil }
func (g *shape542) What() string              { return "shape" }
func (g *shape542) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape543 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape543) Read(s *tok.Scanner) error { return nil }
func (g *shape543) What() string              { return "shape" }
func (g *shape543) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape544 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape544) Read(s *tok.Scanner) error { return nil }
func (g *shape544) What() string              { return "shape" }
func (g *shape544) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape545 struct {
	F0 tok.Reader `name:"a0"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape545) Read(s *tok.Scanner) error { return nil }
func (g *shape545) What() string              { return "shape" }
func (g *shape545) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape546 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape546) Read(s *tok.Scanner) error { return nil }
func (g *shape546) What() string              { return "shape" }
func (g *shape546) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape547 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Rule
}

func (g *shape547) Read(s *tok.Scanner) error { return nil }
func (g *shape547) What() string              { return "shape" }
func (g *shape547) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape548 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape548) Read(s *tok.Scanner) error { return nil }
func (g *shape548) What() string              { return "shape" }
func (g *shape548) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape549 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape549) Read(s *tok.Scanner) error { return nil }
func (g *shape549) What() string              { return "shape" }
func (g *shape549) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape550 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape550) Read(s *tok.Scanner) error { return nil }
func (g *shape550) What() string              { return "shape" }
func (g *shape550) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape551 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape551) Read(s *tok.Scanner) error { return nil }
func (g *shape551) What() string              { return "shape" }
func (g *shape551) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape552 struct {
	F0 tok.Reader `name:"a0"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape552) Read(s *tok.Scanner) error { return nil }
func (g *shape552) What() string              { return "shape" }
func (g *shape552) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape553 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape553) Read(s *tok.Scanner) error { return nil }
func (g *shape553) What() string              { return "shape" }
func (g *shape553) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape554 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape554) Read(s *tok.Scanner) error { return nil }
func (g *shape554) What() string              { return "shape" }
func (g *shape554) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape555 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape555) Read(s *tok.Scanner) error { return nil }
func (g *shape555) What() string              { return "shape" }
func (g *shape555) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape556 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape556) Read(s *tok.Scanner) error { return nil }
func (g *shape556) What() string              { return "shape" }
func (g *shape556) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape557 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape557) Read(s *tok.Scanner) error { return nil }
func (g *shape557) What() string              { return "shape" }
func (g *shape557) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape558 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape558) Read(s *tok.Scanner) error { return nil }
func (g *shape558) What() string              { return "shape" }
func (g *shape558) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape559 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape559) Read(s *tok.Scanner) error { return nil }
func (g *shape559) What() string              { return "shape" }
func (g *shape559) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape560 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape560) Read(s *tok.Scanner) error { return nil }
func (g *shape560) What() string              { return "shape" }
func (g *shape560) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape561 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape561) Read(s *tok.Scanner) error { return nil }
func (g *shape561) What() string              { return "shape" }
func (g *shape561) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape562 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape562) Read(s *tok.Scanner) error { return nil }
func (g *shape562) What() string              { return "shape" }
func (g *shape562) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape563 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape563) Read(s *tok.Scanner) error { return nil }
func (g *shape563) What() string              { return "shape" }
func (g *shape563) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape564 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape564) Read(s *tok.Scanner) error { return nil }
func (g *shape564) What() string              { return "shape" }
func (g *shape564) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape565 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape565) Read(s *tok.Scanner) error { return nil }
func (g *shape565) What() string              { return "shape" }
func (g *shape565) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape566 struct {
	F0 tok.Reader `name:"a0"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape566) Read(s *tok.Scanner) error { return nil }
func (g *shape566) What() string              { return "shape" }
func (g *shape566) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape567 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape567) Read(s *tok.Scanner) error { return nil }
func (g *shape567) What() string              { return "shape" }
func (g *shape567) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape568 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape568) Read(s *tok.Scanner) error { return nil }
func (g *shape568) What() string              { return "shape" }
func (g *shape568) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape569 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape569) Read(s *tok.Scanner) error { return nil }
func (g *shape569) What() string              { return "shape" }
func (g *shape569) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape570 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape570) Read(s *tok.Scanner) error { return nil }
func (g *shape570) What() string              { return "shape" }
func (g *shape570) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape571 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape571) Read(s *tok.Scanner) error { return nil }
func (g *shape571) What() string              { return "shape" }
func (g *shape571) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape572 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape572) Read(s *tok.Scanner) error { return nil }
func (g *shape572) What() string              { return "shape" }
func (g *shape572) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape573 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape573) Read(s *tok.Scanner) error { return nil }
func (g *shape573) What() string              { return "shape" }
func (g *shape573) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape574 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape574) Read(s *tok.Scanner) error { return nil }
func (g *shape574) What() string              { return "shape" }
func (g *shape574) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape575 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	F2 tok.Rule
}

func (g *shape575) Read(s *tok.Scanner) error { return nil }
func (g *shape575) What() string              { return "shape" }
func (g *shape575) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape576 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape576) Read(s *tok.Scanner) error { return nil }
func (g *shape576) What() string              { return "shape" }
func (g *shape576) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape577 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
}

func (g *shape577) Read(s *tok.Scanner) error { return nil }
func (g *shape577) What() string              { return "shape" }
func (g *shape577) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape578 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	F2 *tok.Rule `name:"a2"`
}

func (g *shape578) Read(s *tok.Scanner) error { return nil }
func (g *shape578) What() string              { return "shape" }
func (g *shape578) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape579 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	F2 tok.Reader `name:"a2"`
}

func (g *shape579) Read(s *tok.Scanner) error { return nil }
func (g *shape579) What() string              { return "shape" }
func (g *shape579) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape580 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape580) Read(s *tok.Scanner) error { return nil }
func (g *shape580) What() string              { return "shape" }
func (g *shape580) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape581 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape581) Read(s *tok.Scanner) error { return nil }
func (g *shape581) What() string              { return "shape" }
func (g *shape581) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape582 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule
}

func (g *shape582) Read(s *tok.Scanner) error { return nil }
func (g *shape582) What() string              { return "shape" }
func (g *shape582) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape583 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape583) Read(s *tok.Scanner) error { return nil }
func (g *shape583) What() string              { return "shape" }
func (g *shape583) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape584 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"1x"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape584) Read(s *tok.Scanner) error { return nil }
func (g *shape584) What() string              { return "shape" }
func (g *shape584) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape585 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule  `name:"1x"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape585) Read(s *tok.Scanner) error { return nil }
func (g *shape585) What() string              { return "shape" }
func (g *shape585) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape586 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule   `name:"1x"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape586) Read(s *tok.Scanner) error { return nil }
func (g *shape586) What() string              { return "shape" }
func (g *shape586) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape587 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape587) Read(s *tok.Scanner) error { return nil }
func (g *shape587) What() string              { return "shape" }
func (g *shape587) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape588 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape588) Read(s *tok.Scanner) error { return nil }
func (g *shape588) What() string              { return "shape" }
func (g *shape588) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape589 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape589) Read(s *tok.Scanner) error { return nil }
func (g *shape589) What() string              { return "shape" }
func (g *shape589) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape590 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape590) Read(s *tok.Scanner) error { return nil }
func (g *shape590) What() string              { return "shape" }
func (g *shape590) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape591 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape591) Read(s *tok.Scanner) error { return nil }
func (g *shape591) What() string              { return "shape" }
func (g *shape591) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape592 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule  `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape592) Read(s *tok.Scanner) error { return nil }
func (g *shape592) What() string              { return "shape" }
func (g *shape592) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape593 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule   `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape593) Read(s *tok.Scanner) error { return nil }
func (g *shape593) What() string              { return "shape" }
func (g *shape593) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape594 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape594) Read(s *tok.Scanner) error { return nil }
func (g *shape594) What() string              { return "shape" }
func (g *shape594) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape595 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"a2"`
}

func (g *shape595) Read(s *tok.Scanner) error { return nil }
func (g *shape595) What() string              { return "shape" }
func (g *shape595) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape596 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule
}

func (g *shape596) Read(s *tok.Scanner) error { return nil }
func (g *shape596) What() string              { return "shape" }
func (g *shape596) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape597 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `name:"2x"`
}

func (g *shape597) Read(s *tok.Scanner) error { return nil }
func (g *shape597) What() string              { return "shape" }
func (g *shape597) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape598 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
	f2 tok.Rule  `name:"a2"`
}

func (g *shape598) Read(s *tok.Scanner) error { return nil }
func (g *shape598) What() string              { return "shape" }
func (g *shape598) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape599 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape599) Read(s *tok.Scanner) error { return nil }
func (g *shape599) What() string              { return "shape" }
func (g *shape599) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape600 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule  `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape600) Read(s *tok.Scanner) error { return nil }
func (g *shape600) What() string              { return "shape" }
func (g *shape600) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape601 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 *tok.Rule `name:"a1"`
	F2 tok.Rule  `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape601) Read(s *tok.Scanner) error { return nil }
func (g *shape601) What() string              { return "shape" }
func (g *shape601) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape602 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"a2"`
}

func (g *shape602) Read(s *tok.Scanner) error { return nil }
func (g *shape602) What() string              { return "shape" }
func (g *shape602) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape603 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule
}

func (g *shape603) Read(s *tok.Scanner) error { return nil }
func (g *shape603) What() string              { return "shape" }
func (g *shape603) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape604 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `name:"2x"`
}

func (g *shape604) Read(s *tok.Scanner) error { return nil }
func (g *shape604) What() string              { return "shape" }
func (g *shape604) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape605 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	f2 tok.Rule   `name:"a2"`
}

func (g *shape605) Read(s *tok.Scanner) error { return nil }
func (g *shape605) What() string              { return "shape" }
func (g *shape605) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape606 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	F2 *tok.Rule  `name:"a2"`
}

func (g *shape606) Read(s *tok.Scanner) error { return nil }
func (g *shape606) What() string              { return "shape" }
func (g *shape606) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape607 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape607) Read(s *tok.Scanner) error { return nil }
func (g *shape607) What() string              { return "shape" }
func (g *shape607) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape608 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Reader `name:"a1"`
	F2 tok.Rule   `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape608) Read(s *tok.Scanner) error { return nil }
func (g *shape608) What() string              { return "shape" }
func (g *shape608) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape609 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"a2"`
}

func (g *shape609) Read(s *tok.Scanner) error { return nil }
func (g *shape609) What() string              { return "shape" }
func (g *shape609) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape610 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule
}

func (g *shape610) Read(s *tok.Scanner) error { return nil }
func (g *shape610) What() string              { return "shape" }
func (g *shape610) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape611 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `name:"2x"`
}

func (g *shape611) Read(s *tok.Scanner) error { return nil }
func (g *shape611) What() string              { return "shape" }
func (g *shape611) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape612 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	f2 tok.Rule `name:"a2"`
}

func (g *shape612) Read(s *tok.Scanner) error { return nil }
func (g *shape612) What() string              { return "shape" }
func (g *shape612) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape613 struct {
	F0 tok.Rule  `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule  `json:"z" name:"B1.c-d_e+f"`
	F2 *tok.Rule `name:"a2"`
}

func (g *shape613) Read(s *tok.Scanner) error { return nil }
func (g *shape613) What() string              { return "shape" }
func (g *shape613) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape614 struct {
	F0 tok.Rule   `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule   `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Reader `name:"a2"`
}

func (g *shape614) Read(s *tok.Scanner) error { return nil }
func (g *shape614) What() string              { return "shape" }
func (g *shape614) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape615 struct {
	F0 tok.Rule `json:"z" name:"B0.c-d_e+f"`
	F1 tok.Rule `json:"z" name:"B1.c-d_e+f"`
	F2 tok.Rule `json:"z" name:"B2.c-d_e+f"`
}

func (g *shape615) Read(s *tok.Scanner) error { return nil }
func (g *shape615) What() string              { return "shape" }
func (g *shape615) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape616 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape616) Read(s *tok.Scanner) error { return nil }
func (g *shape616) What() string              { return "shape" }
func (g *shape616) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape617 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape617) Read(s *tok.Scanner) error { return nil }
func (g *shape617) What() string              { return "shape" }
func (g *shape617) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape618 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape618) Read(s *tok.Scanner) error { return nil }
func (g *shape618) What() string              { return "shape" }
func (g *shape618) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape619 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
}

func (g *shape619) Read(s *tok.Scanner) error { return nil }
func (g *shape619) What() string              { return "shape" }
func (g *shape619) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape620 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
}

func (g *shape620) Read(s *tok.Scanner) error { return nil }
func (g *shape620) What() string              { return "shape" }
func (g *shape620) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape621 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
}

func (g *shape621) Read(s *tok.Scanner) error { return nil }
func (g *shape621) What() string              { return "shape" }
func (g *shape621) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape622 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape622) Read(s *tok.Scanner) error { return nil }
func (g *shape622) What() string              { return "shape" }
func (g *shape622) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape623 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape623) Read(s *tok.Scanner) error { return nil }
func (g *shape623) What() string              { return "shape" }
func (g *shape623) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape624 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape624) Read(s *tok.Scanner) error { return nil }
func (g *shape624) What() string              { return "shape" }
func (g *shape624) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape625 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
}

func (g *shape625) Read(s *tok.Scanner) error { return nil }
func (g *shape625) What() string              { return "shape" }
func (g *shape625) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape626 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
}

func (g *shape626) Read(s *tok.Scanner) error { return nil }
func (g *shape626) What() string              { return "shape" }
func (g *shape626) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape627 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape627) Read(s *tok.Scanner) error { return nil }
func (g *shape627) What() string              { return "shape" }
func (g *shape627) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape628 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape628) Read(s *tok.Scanner) error { return nil }
func (g *shape628) What() string              { return "shape" }
func (g *shape628) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape629 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape629) Read(s *tok.Scanner) error { return nil }
func (g *shape629) What() string              { return "shape" }
func (g *shape629) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape630 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
}

func (g *shape630) Read(s *tok.Scanner) error { return nil }
func (g *shape630) What() string              { return "shape" }
func (g *shape630) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape631 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
}

func (g *shape631) Read(s *tok.Scanner) error { return nil }
func (g *shape631) What() string              { return "shape" }
func (g *shape631) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape632 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape632) Read(s *tok.Scanner) error { return nil }
func (g *shape632) What() string              { return "shape" }
func (g *shape632) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape633 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape633) Read(s *tok.Scanner) error { return nil }
func (g *shape633) What() string              { return "shape" }
func (g *shape633) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape634 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape634) Read(s *tok.Scanner) error { return nil }
func (g *shape634) What() string              { return "shape" }
func (g *shape634) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape635 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
}

func (g *shape635) Read(s *tok.Scanner) error { return nil }
func (g *shape635) What() string              { return "shape" }
func (g *shape635) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape636 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
}

func (g *shape636) Read(s *tok.Scanner) error { return nil }
func (g *shape636) What() string              { return "shape" }
func (g *shape636) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape637 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape637) Read(s *tok.Scanner) error { return nil }
func (g *shape637) What() string              { return "shape" }
func (g *shape637) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape638 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape638) Read(s *tok.Scanner) error { return nil }
func (g *shape638) What() string              { return "shape" }
func (g *shape638) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape639 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
}

func (g *shape639) Read(s *tok.Scanner) error { return nil }
func (g *shape639) What() string              { return "shape" }
func (g *shape639) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape640 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
}

func (g *shape640) Read(s *tok.Scanner) error { return nil }
func (g *shape640) What() string              { return "shape" }
func (g *shape640) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape641 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
}

func (g *shape641) Read(s *tok.Scanner) error { return nil }
func (g *shape641) What() string              { return "shape" }
func (g *shape641) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape642 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape642) Read(s *tok.Scanner) error { return nil }
func (g *shape642) What() string              { return "shape" }
func (g *shape642) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape643 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape643) Read(s *tok.Scanner) error { return nil }
func (g *shape643) What() string              { return "shape" }
func (g *shape643) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape644 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape644) Read(s *tok.Scanner) error { return nil }
func (g *shape644) What() string              { return "shape" }
func (g *shape644) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape645 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape645) Read(s *tok.Scanner) error { return nil }
func (g *shape645) What() string              { return "shape" }
func (g *shape645) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape646 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
}

func (g *shape646) Read(s *tok.Scanner) error { return nil }
func (g *shape646) What() string              { return "shape" }
func (g *shape646) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape647 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
}

func (g *shape647) Read(s *tok.Scanner) error { return nil }
func (g *shape647) What() string              { return "shape" }
func (g *shape647) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape648 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
}

func (g *shape648) Read(s *tok.Scanner) error { return nil }
func (g *shape648) What() string              { return "shape" }
func (g *shape648) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape649 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape649) Read(s *tok.Scanner) error { return nil }
func (g *shape649) What() string              { return "shape" }
func (g *shape649) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape650 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape650) Read(s *tok.Scanner) error { return nil }
func (g *shape650) What() string              { return "shape" }
func (g *shape650) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape651 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape651) Read(s *tok.Scanner) error { return nil }
func (g *shape651) What() string              { return "shape" }
func (g *shape651) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape652 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape652) Read(s *tok.Scanner) error { return nil }
func (g *shape652) What() string              { return "shape" }
func (g *shape652) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape653 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
}

func (g *shape653) Read(s *tok.Scanner) error { return nil }
func (g *shape653) What() string              { return "shape" }
func (g *shape653) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape654 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape654) Read(s *tok.Scanner) error { return nil }
func (g *shape654) What() string              { return "shape" }
func (g *shape654) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape655 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape655) Read(s *tok.Scanner) error { return nil }
func (g *shape655) What() string              { return "shape" }
func (g *shape655) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape656 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape656) Read(s *tok.Scanner) error { return nil }
func (g *shape656) What() string              { return "shape" }
func (g *shape656) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape657 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape657) Read(s *tok.Scanner) error { return nil }
func (g *shape657) What() string              { return "shape" }
func (g *shape657) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape658 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape658) Read(s *tok.Scanner) error { return nil }
func (g *shape658) What() string              { return "shape" }
func (g *shape658) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape659 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
}

func (g *shape659) Read(s *tok.Scanner) error { return nil }
func (g *shape659) What() string              { return "shape" }
func (g *shape659) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape660 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape660) Read(s *tok.Scanner) error { return nil }
func (g *shape660) What() string              { return "shape" }
func (g *shape660) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape661 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape661) Read(s *tok.Scanner) error { return nil }
func (g *shape661) What() string              { return "shape" }
func (g *shape661) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape662 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape662) Read(s *tok.Scanner) error { return nil }
func (g *shape662) What() string              { return "shape" }
func (g *shape662) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape663 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape663) Read(s *tok.Scanner) error { return nil }
func (g *shape663) What() string              { return "shape" }
func (g *shape663) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape664 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape664) Read(s *tok.Scanner) error { return nil }
func (g *shape664) What() string              { return "shape" }
func (g *shape664) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape665 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
}

func (g *shape665) Read(s *tok.Scanner) error { return nil }
func (g *shape665) What() string              { return "shape" }
func (g *shape665) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape666 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape666) Read(s *tok.Scanner) error { return nil }
func (g *shape666) What() string              { return "shape" }
func (g *shape666) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape667 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape667) Read(s *tok.Scanner) error { return nil }
func (g *shape667) What() string              { return "shape" }
func (g *shape667) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape668 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape668) Read(s *tok.Scanner) error { return nil }
func (g *shape668) What() string              { return "shape" }
func (g *shape668) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape669 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape669) Read(s *tok.Scanner) error { return nil }
func (g *shape669) What() string              { return "shape" }
func (g *shape669) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape670 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape670) Read(s *tok.Scanner) error { return nil }
func (g *shape670) What() string              { return "shape" }
func (g *shape670) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape671 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
}

func (g *shape671) Read(s *tok.Scanner) error { return nil }
func (g *shape671) What() string              { return "shape" }
func (g *shape671) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape672 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
}

func (g *shape672) Read(s *tok.Scanner) error { return nil }
func (g *shape672) What() string              { return "shape" }
func (g *shape672) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape673 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape673) Read(s *tok.Scanner) error { return nil }
func (g *shape673) What() string              { return "shape" }
func (g *shape673) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape674 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape674) Read(s *tok.Scanner) error { return nil }
func (g *shape674) What() string              { return "shape" }
func (g *shape674) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape675 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape675) Read(s *tok.Scanner) error { return nil }
func (g *shape675) What() string              { return "shape" }
func (g *shape675) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape676 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape676) Read(s *tok.Scanner) error { return nil }
func (g *shape676) What() string              { return "shape" }
func (g *shape676) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape677 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape677) Read(s *tok.Scanner) error { return nil }
func (g *shape677) What() string              { return "shape" }
func (g *shape677) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape678 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape678) Read(s *tok.Scanner) error { return nil }
func (g *shape678) What() string              { return "shape" }
func (g *shape678) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape679 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape679) Read(s *tok.Scanner) error { return nil }
func (g *shape679) What() string              { return "shape" }
func (g *shape679) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape680 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape680) Read(s *tok.Scanner) error { return nil }
func (g *shape680) What() string              { return "shape" }
func (g *shape680) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape681 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape681) Read(s *tok.Scanner) error { return nil }
func (g *shape681) What() string              { return "shape" }
func (g *shape681) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape682 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape682) Read(s *tok.Scanner) error { return nil }
func (g *shape682) What() string              { return "shape" }
func (g *shape682) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape683 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape683) Read(s *tok.Scanner) error { return nil }
func (g *shape683) What() string              { return "shape" }
func (g *shape683) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape684 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape684) Read(s *tok.Scanner) error { return nil }
func (g *shape684) What() string              { return "shape" }
func (g *shape684) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape685 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape685) Read(s *tok.Scanner) error { return nil }
func (g *shape685) What() string              { return "shape" }
func (g *shape685) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape686 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape686) Read(s *tok.Scanner) error { return nil }
func (g *shape686) What() string              { return "shape" }
func (g *shape686) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape687 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape687) Read(s *tok.Scanner) error { return nil }
func (g *shape687) What() string              { return "shape" }
func (g *shape687) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape688 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape688) Read(s *tok.Scanner) error { return nil }
func (g *shape688) What() string              { return "shape" }
func (g *shape688) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape689 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape689) Read(s *tok.Scanner) error { return nil }
func (g *shape689) What() string              { return "shape" }
func (g *shape689) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape690 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape690) Read(s *tok.Scanner) error { return nil }
func (g *shape690) What() string              { return "shape" }
func (g *shape690) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape691 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape691) Read(s *tok.Scanner) error { return nil }
func (g *shape691) What() string              { return "shape" }
func (g *shape691) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape692 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape692) Read(s *tok.Scanner) error { return nil }
func (g *shape692) What() string              { return "shape" }
func (g *shape692) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape693 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape693) Read(s *tok.Scanner) error { return nil }
func (g *shape693) What() string              { return "shape" }
func (g *shape693) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape694 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape694) Read(s *tok.Scanner) error { return nil }
func (g *shape694) What() string              { return "shape" }
func (g *shape694) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape695 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape695) Read(s *tok.Scanner) error { return nil }
func (g *shape695) What() string              { return "shape" }
func (g *shape695) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape696 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape696) Read(s *tok.Scanner) error { return nil }
func (g *shape696) What() string              { return "shape" }
func (g *shape696) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape697 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape697) Read(s *tok.Scanner) error { return nil }
func (g *shape697) What() string              { return "shape" }
func (g *shape697) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape698 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape698) Read(s *tok.Scanner) error { return nil }
func (g *shape698) What() string              { return "shape" }
func (g *shape698) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape699 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape699) Read(s *tok.Scanner) error { return nil }
func (g *shape699) What() string              { return "shape" }
func (g *shape699) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape700 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape700) Read(s *tok.Scanner) error { return nil }
func (g *shape700) What() string              { return "shape" }
func (g *shape700) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape701 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape701) Read(s *tok.Scanner) error { return nil }
func (g *shape701) What() string              { return "shape" }
func (g *shape701) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape702 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape702) Read(s *tok.Scanner) error { return nil }
func (g *shape702) What() string              { return "shape" }
func (g *shape702) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape703 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape703) Read(s *tok.Scanner) error { return nil }
func (g *shape703) What() string              { return "shape" }
func (g *shape703) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape704 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape704) Read(s *tok.Scanner) error { return nil }
func (g *shape704) What() string              { return "shape" }
func (g *shape704) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape705 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape705) Read(s *tok.Scanner) error { return nil }
func (g *shape705) What() string              { return "shape" }
func (g *shape705) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape706 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape706) Read(s *tok.Scanner) error { return nil }
func (g *shape706) What() string              { return "shape" }
func (g *shape706) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape707 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape707) Read(s *tok.Scanner) error { return nil }
func (g *shape707) What() string              { return "shape" }
func (g *shape707) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape708 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape708) Read(s *tok.Scanner) error { return nil }
func (g *shape708) What() string              { return "shape" }
func (g *shape708) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape709 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape709) Read(s *tok.Scanner) error { return nil }
func (g *shape709) What() string              { return "shape" }
func (g *shape709) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape710 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape710) Read(s *tok.Scanner) error { return nil }
func (g *shape710) What() string              { return "shape" }
func (g *shape710) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape711 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape711) Read(s *tok.Scanner) error { return nil }
func (g *shape711) What() string              { return "shape" }
func (g *shape711) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape712 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape712) Read(s *tok.Scanner) error { return nil }
func (g *shape712) What() string              { return "shape" }
func (g *shape712) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape713 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape713) Read(s *tok.Scanner) error { return nil }
func (g *shape713) What() string              { return "shape" }
func (g *shape713) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape714 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape714) Read(s *tok.Scanner) error { return nil }
func (g *shape714) What() string              { return "shape" }
func (g *shape714) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape715 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
	F6 tok.Rule `name:"a6"`
}

func (g *shape715) Read(s *tok.Scanner) error { return nil }
func (g *shape715) What() string              { return "shape" }
func (g *shape715) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape716 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule
}

func (g *shape716) Read(s *tok.Scanner) error { return nil }
func (g *shape716) What() string              { return "shape" }
func (g *shape716) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape717 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
	F6 tok.Rule `name:"a6"`
}

func (g *shape717) Read(s *tok.Scanner) error { return nil }
func (g *shape717) What() string              { return "shape" }
func (g *shape717) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape718 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape718) Read(s *tok.Scanner) error { return nil }
func (g *shape718) What() string              { return "shape" }
func (g *shape718) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape719 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape719) Read(s *tok.Scanner) error { return nil }
func (g *shape719) What() string              { return "shape" }
func (g *shape719) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape720 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape720) Read(s *tok.Scanner) error { return nil }
func (g *shape720) What() string              { return "shape" }
func (g *shape720) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape721 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape721) Read(s *tok.Scanner) error { return nil }
func (g *shape721) What() string              { return "shape" }
func (g *shape721) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape722 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape722) Read(s *tok.Scanner) error { return nil }
func (g *shape722) What() string              { return "shape" }
func (g *shape722) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape723 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape723) Read(s *tok.Scanner) error { return nil }
func (g *shape723) What() string              { return "shape" }
func (g *shape723) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape724 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"6x"`
}

func (g *shape724) Read(s *tok.Scanner) error { return nil }
func (g *shape724) What() string              { return "shape" }
func (g *shape724) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape725 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape725) Read(s *tok.Scanner) error { return nil }
func (g *shape725) What() string              { return "shape" }
func (g *shape725) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape726 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape726) Read(s *tok.Scanner) error { return nil }
func (g *shape726) What() string              { return "shape" }
func (g *shape726) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape727 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape727) Read(s *tok.Scanner) error { return nil }
func (g *shape727) What() string              { return "shape" }
func (g *shape727) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape728 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape728) Read(s *tok.Scanner) error { return nil }
func (g *shape728) What() string              { return "shape" }
func (g *shape728) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape729 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape729) Read(s *tok.Scanner) error { return nil }
func (g *shape729) What() string              { return "shape" }
func (g *shape729) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape730 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape730) Read(s *tok.Scanner) error { return nil }
func (g *shape730) What() string              { return "shape" }
func (g *shape730) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape731 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape731) Read(s *tok.Scanner) error { return nil }
func (g *shape731) What() string              { return "shape" }
func (g *shape731) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape732 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	f6 tok.Rule `name:"a6"`
}

func (g *shape732) Read(s *tok.Scanner) error { return nil }
func (g *shape732) What() string              { return "shape" }
func (g *shape732) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape733 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape733) Read(s *tok.Scanner) error { return nil }
func (g *shape733) What() string              { return "shape" }
func (g *shape733) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape734 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape734) Read(s *tok.Scanner) error { return nil }
func (g *shape734) What() string              { return "shape" }
func (g *shape734) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape735 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape735) Read(s *tok.Scanner) error { return nil }
func (g *shape735) What() string              { return "shape" }
func (g *shape735) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape736 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape736) Read(s *tok.Scanner) error { return nil }
func (g *shape736) What() string              { return "shape" }
func (g *shape736) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape737 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape737) Read(s *tok.Scanner) error { return nil }
func (g *shape737) What() string              { return "shape" }
func (g *shape737) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape738 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape738) Read(s *tok.Scanner) error { return nil }
func (g *shape738) What() string              { return "shape" }
func (g *shape738) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape739 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape739) Read(s *tok.Scanner) error { return nil }
func (g *shape739) What() string              { return "shape" }
func (g *shape739) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape740 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 string   `name:"a6"`
}

func (g *shape740) Read(s *tok.Scanner) error { return nil }
func (g *shape740) What() string              { return "shape" }
func (g *shape740) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape741 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape741) Read(s *tok.Scanner) error { return nil }
func (g *shape741) What() string              { return "shape" }
func (g *shape741) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape742 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape742) Read(s *tok.Scanner) error { return nil }
func (g *shape742) What() string              { return "shape" }
func (g *shape742) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape743 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape743) Read(s *tok.Scanner) error { return nil }
func (g *shape743) What() string              { return "shape" }
func (g *shape743) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape744 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape744) Read(s *tok.Scanner) error { return nil }
func (g *shape744) What() string              { return "shape" }
func (g *shape744) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape745 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape745) Read(s *tok.Scanner) error { return nil }
func (g *shape745) What() string              { return "shape" }
func (g *shape745) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape746 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape746) Read(s *tok.Scanner) error { return nil }
func (g *shape746) What() string              { return "shape" }
func (g *shape746) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape747 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape747) Read(s *tok.Scanner) error { return nil }
func (g *shape747) What() string              { return "shape" }
func (g *shape747) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape748 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `json:"z6"`
}

func (g *shape748) Read(s *tok.Scanner) error { return nil }
func (g *shape748) What() string              { return "shape" }
func (g *shape748) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape749 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
	F6 tok.Rule `name:"a6"`
}

func (g *shape749) Read(s *tok.Scanner) error { return nil }
func (g *shape749) What() string              { return "shape" }
func (g *shape749) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape750 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape750) Read(s *tok.Scanner) error { return nil }
func (g *shape750) What() string              { return "shape" }
func (g *shape750) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape751 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape751) Read(s *tok.Scanner) error { return nil }
func (g *shape751) What() string              { return "shape" }
func (g *shape751) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape752 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape752) Read(s *tok.Scanner) error { return nil }
func (g *shape752) What() string              { return "shape" }
func (g *shape752) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape753 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape753) Read(s *tok.Scanner) error { return nil }
func (g *shape753) What() string              { return "shape" }
func (g *shape753) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape754 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape754) Read(s *tok.Scanner) error { return nil }
func (g *shape754) What() string              { return "shape" }
func (g *shape754) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape755 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape755) Read(s *tok.Scanner) error { return nil }
func (g *shape755) What() string              { return "shape" }
func (g *shape755) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape756 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape756) Read(s *tok.Scanner) error { return nil }
func (g *shape756) What() string              { return "shape" }
func (g *shape756) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape757 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule
	F7 tok.Rule `name:"a7"`
}

func (g *shape757) Read(s *tok.Scanner) error { return nil }
func (g *shape757) What() string              { return "shape" }
func (g *shape757) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape758 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule
}

func (g *shape758) Read(s *tok.Scanner) error { return nil }
func (g *shape758) What() string              { return "shape" }
func (g *shape758) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape759 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule
}

func (g *shape759) Read(s *tok.Scanner) error { return nil }
func (g *shape759) What() string              { return "shape" }
func (g *shape759) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape760 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape760) Read(s *tok.Scanner) error { return nil }
func (g *shape760) What() string              { return "shape" }
func (g *shape760) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape761 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape761) Read(s *tok.Scanner) error { return nil }
func (g *shape761) What() string              { return "shape" }
func (g *shape761) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape762 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape762) Read(s *tok.Scanner) error { return nil }
func (g *shape762) What() string              { return "shape" }
func (g *shape762) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape763 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape763) Read(s *tok.Scanner) error { return nil }
func (g *shape763) What() string              { return "shape" }
func (g *shape763) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape764 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape764) Read(s *tok.Scanner) error { return nil }
func (g *shape764) What() string              { return "shape" }
func (g *shape764) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape765 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape765) Read(s *tok.Scanner) error { return nil }
func (g *shape765) What() string              { return "shape" }
func (g *shape765) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape766 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"6x"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape766) Read(s *tok.Scanner) error { return nil }
func (g *shape766) What() string              { return "shape" }
func (g *shape766) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape767 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"7x"`
}

func (g *shape767) Read(s *tok.Scanner) error { return nil }
func (g *shape767) What() string              { return "shape" }
func (g *shape767) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape768 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"7x"`
}

func (g *shape768) Read(s *tok.Scanner) error { return nil }
func (g *shape768) What() string              { return "shape" }
func (g *shape768) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape769 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape769) Read(s *tok.Scanner) error { return nil }
func (g *shape769) What() string              { return "shape" }
func (g *shape769) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape770 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape770) Read(s *tok.Scanner) error { return nil }
func (g *shape770) What() string              { return "shape" }
func (g *shape770) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape771 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape771) Read(s *tok.Scanner) error { return nil }
func (g *shape771) What() string              { return "shape" }
func (g *shape771) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape772 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape772) Read(s *tok.Scanner) error { return nil }
func (g *shape772) What() string              { return "shape" }
func (g *shape772) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape773 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape773) Read(s *tok.Scanner) error { return nil }
func (g *shape773) What() string              { return "shape" }
func (g *shape773) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape774 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape774) Read(s *tok.Scanner) error { return nil }
func (g *shape774) What() string              { return "shape" }
func (g *shape774) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape775 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	f6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape775) Read(s *tok.Scanner) error { return nil }
func (g *shape775) What() string              { return "shape" }
func (g *shape775) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape776 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	f7 tok.Rule `name:"a7"`
}

func (g *shape776) Read(s *tok.Scanner) error { return nil }
func (g *shape776) What() string              { return "shape" }
func (g *shape776) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape777 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	f7 tok.Rule `name:"a7"`
}

func (g *shape777) Read(s *tok.Scanner) error { return nil }
func (g *shape777) What() string              { return "shape" }
func (g *shape777) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape778 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape778) Read(s *tok.Scanner) error { return nil }
func (g *shape778) What() string              { return "shape" }
func (g *shape778) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape779 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape779) Read(s *tok.Scanner) error { return nil }
func (g *shape779) What() string              { return "shape" }
func (g *shape779) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape780 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape780) Read(s *tok.Scanner) error { return nil }
func (g *shape780) What() string              { return "shape" }
func (g *shape780) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape781 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape781) Read(s *tok.Scanner) error { return nil }
func (g *shape781) What() string              { return "shape" }
func (g *shape781) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape782 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape782) Read(s *tok.Scanner) error { return nil }
func (g *shape782) What() string              { return "shape" }
func (g *shape782) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape783 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape783) Read(s *tok.Scanner) error { return nil }
func (g *shape783) What() string              { return "shape" }
func (g *shape783) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape784 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 string   `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape784) Read(s *tok.Scanner) error { return nil }
func (g *shape784) What() string              { return "shape" }
func (g *shape784) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape785 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 string   `name:"a7"`
}

func (g *shape785) Read(s *tok.Scanner) error { return nil }
func (g *shape785) What() string              { return "shape" }
func (g *shape785) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape786 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 string   `name:"a7"`
}

func (g *shape786) Read(s *tok.Scanner) error { return nil }
func (g *shape786) What() string              { return "shape" }
func (g *shape786) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape787 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape787) Read(s *tok.Scanner) error { return nil }
func (g *shape787) What() string              { return "shape" }
func (g *shape787) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape788 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape788) Read(s *tok.Scanner) error { return nil }
func (g *shape788) What() string              { return "shape" }
func (g *shape788) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape789 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape789) Read(s *tok.Scanner) error { return nil }
func (g *shape789) What() string              { return "shape" }
func (g *shape789) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape790 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape790) Read(s *tok.Scanner) error { return nil }
func (g *shape790) What() string              { return "shape" }
func (g *shape790) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape791 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape791) Read(s *tok.Scanner) error { return nil }
func (g *shape791) What() string              { return "shape" }
func (g *shape791) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape792 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape792) Read(s *tok.Scanner) error { return nil }
func (g *shape792) What() string              { return "shape" }
func (g *shape792) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape793 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `json:"z6"`
	F7 tok.Rule `name:"a7"`
}

func (g *shape793) Read(s *tok.Scanner) error { return nil }
func (g *shape793) What() string              { return "shape" }
func (g *shape793) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape794 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `json:"z7"`
}

func (g *shape794) Read(s *tok.Scanner) error { return nil }
func (g *shape794) What() string              { return "shape" }
func (g *shape794) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape795 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `json:"z7"`
}

func (g *shape795) Read(s *tok.Scanner) error { return nil }
func (g *shape795) What() string              { return "shape" }
func (g *shape795) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape796 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape796) Read(s *tok.Scanner) error { return nil }
func (g *shape796) What() string              { return "shape" }
func (g *shape796) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape797 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape797) Read(s *tok.Scanner) error { return nil }
func (g *shape797) What() string              { return "shape" }
func (g *shape797) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape798 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape798) Read(s *tok.Scanner) error { return nil }
func (g *shape798) What() string              { return "shape" }
func (g *shape798) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape799 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape799) Read(s *tok.Scanner) error { return nil }
func (g *shape799) What() string              { return "shape" }
func (g *shape799) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape800 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule
	F9 tok.Rule `name:"a9"`
}

func (g *shape800) Read(s *tok.Scanner) error { return nil }
func (g *shape800) What() string              { return "shape" }
func (g *shape800) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape801 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule
}

func (g *shape801) Read(s *tok.Scanner) error { return nil }
func (g *shape801) What() string              { return "shape" }
func (g *shape801) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape802 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule
}

func (g *shape802) Read(s *tok.Scanner) error { return nil }
func (g *shape802) What() string              { return "shape" }
func (g *shape802) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape803 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape803) Read(s *tok.Scanner) error { return nil }
func (g *shape803) What() string              { return "shape" }
func (g *shape803) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape804 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape804) Read(s *tok.Scanner) error { return nil }
func (g *shape804) What() string              { return "shape" }
func (g *shape804) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape805 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape805) Read(s *tok.Scanner) error { return nil }
func (g *shape805) What() string              { return "shape" }
func (g *shape805) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape806 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"8x"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape806) Read(s *tok.Scanner) error { return nil }
func (g *shape806) What() string              { return "shape" }
func (g *shape806) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape807 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"9x"`
}

func (g *shape807) Read(s *tok.Scanner) error { return nil }
func (g *shape807) What() string              { return "shape" }
func (g *shape807) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape808 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"7x"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"9x"`
}

func (g *shape808) Read(s *tok.Scanner) error { return nil }
func (g *shape808) What() string              { return "shape" }
func (g *shape808) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape809 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape809) Read(s *tok.Scanner) error { return nil }
func (g *shape809) What() string              { return "shape" }
func (g *shape809) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape810 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape810) Read(s *tok.Scanner) error { return nil }
func (g *shape810) What() string              { return "shape" }
func (g *shape810) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape811 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape811) Read(s *tok.Scanner) error { return nil }
func (g *shape811) What() string              { return "shape" }
func (g *shape811) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape812 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	f8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape812) Read(s *tok.Scanner) error { return nil }
func (g *shape812) What() string              { return "shape" }
func (g *shape812) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape813 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	f9 tok.Rule `name:"a9"`
}

func (g *shape813) Read(s *tok.Scanner) error { return nil }
func (g *shape813) What() string              { return "shape" }
func (g *shape813) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape814 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	f7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	f9 tok.Rule `name:"a9"`
}

func (g *shape814) Read(s *tok.Scanner) error { return nil }
func (g *shape814) What() string              { return "shape" }
func (g *shape814) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape815 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape815) Read(s *tok.Scanner) error { return nil }
func (g *shape815) What() string              { return "shape" }
func (g *shape815) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape816 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape816) Read(s *tok.Scanner) error { return nil }
func (g *shape816) What() string              { return "shape" }
func (g *shape816) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape817 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape817) Read(s *tok.Scanner) error { return nil }
func (g *shape817) What() string              { return "shape" }
func (g *shape817) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape818 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 string   `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape818) Read(s *tok.Scanner) error { return nil }
func (g *shape818) What() string              { return "shape" }
func (g *shape818) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape819 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 string   `name:"a9"`
}

func (g *shape819) Read(s *tok.Scanner) error { return nil }
func (g *shape819) What() string              { return "shape" }
func (g *shape819) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape820 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 string   `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 string   `name:"a9"`
}

func (g *shape820) Read(s *tok.Scanner) error { return nil }
func (g *shape820) What() string              { return "shape" }
func (g *shape820) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape821 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape821) Read(s *tok.Scanner) error { return nil }
func (g *shape821) What() string              { return "shape" }
func (g *shape821) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape822 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape822) Read(s *tok.Scanner) error { return nil }
func (g *shape822) What() string              { return "shape" }
func (g *shape822) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape823 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape823) Read(s *tok.Scanner) error { return nil }
func (g *shape823) What() string              { return "shape" }
func (g *shape823) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape824 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `json:"z8"`
	F9 tok.Rule `name:"a9"`
}

func (g *shape824) Read(s *tok.Scanner) error { return nil }
func (g *shape824) What() string              { return "shape" }
func (g *shape824) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape825 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `name:"a7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `json:"z9"`
}

func (g *shape825) Read(s *tok.Scanner) error { return nil }
func (g *shape825) What() string              { return "shape" }
func (g *shape825) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape826 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
	F6 tok.Rule `name:"a6"`
	F7 tok.Rule `json:"z7"`
	F8 tok.Rule `name:"a8"`
	F9 tok.Rule `json:"z9"`
}

func (g *shape826) Read(s *tok.Scanner) error { return nil }
func (g *shape826) What() string              { return "shape" }
func (g *shape826) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape827 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape827) Read(s *tok.Scanner) error { return nil }
func (g *shape827) What() string              { return "shape" }
func (g *shape827) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape828 struct {
	F0  tok.Rule
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape828) Read(s *tok.Scanner) error { return nil }
func (g *shape828) What() string              { return "shape" }
func (g *shape828) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape829 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape829) Read(s *tok.Scanner) error { return nil }
func (g *shape829) What() string              { return "shape" }
func (g *shape829) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape830 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape830) Read(s *tok.Scanner) error { return nil }
func (g *shape830) What() string              { return "shape" }
func (g *shape830) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape831 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule
	F11 tok.Rule `name:"a11"`
}

func (g *shape831) Read(s *tok.Scanner) error { return nil }
func (g *shape831) What() string              { return "shape" }
func (g *shape831) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape832 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule
}

func (g *shape832) Read(s *tok.Scanner) error { return nil }
func (g *shape832) What() string              { return "shape" }
func (g *shape832) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape833 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule
}

func (g *shape833) Read(s *tok.Scanner) error { return nil }
func (g *shape833) What() string              { return "shape" }
func (g *shape833) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape834 struct {
	F0  tok.Rule `name:"0x"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape834) Read(s *tok.Scanner) error { return nil }
func (g *shape834) What() string              { return "shape" }
func (g *shape834) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape835 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape835) Read(s *tok.Scanner) error { return nil }
func (g *shape835) What() string              { return "shape" }
func (g *shape835) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape836 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"6x"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape836) Read(s *tok.Scanner) error { return nil }
func (g *shape836) What() string              { return "shape" }
func (g *shape836) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape837 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"10x"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape837) Read(s *tok.Scanner) error { return nil }
func (g *shape837) What() string              { return "shape" }
func (g *shape837) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape838 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"11x"`
}

func (g *shape838) Read(s *tok.Scanner) error { return nil }
func (g *shape838) What() string              { return "shape" }
func (g *shape838) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape839 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"3x"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"5x"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"7x"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"9x"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"11x"`
}

func (g *shape839) Read(s *tok.Scanner) error { return nil }
func (g *shape839) What() string              { return "shape" }
func (g *shape839) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape840 struct {
	f0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape840) Read(s *tok.Scanner) error { return nil }
func (g *shape840) What() string              { return "shape" }
func (g *shape840) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape841 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape841) Read(s *tok.Scanner) error { return nil }
func (g *shape841) What() string              { return "shape" }
func (g *shape841) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape842 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	f6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape842) Read(s *tok.Scanner) error { return nil }
func (g *shape842) What() string              { return "shape" }
func (g *shape842) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape843 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	f10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape843) Read(s *tok.Scanner) error { return nil }
func (g *shape843) What() string              { return "shape" }
func (g *shape843) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape844 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	f11 tok.Rule `name:"a11"`
}

func (g *shape844) Read(s *tok.Scanner) error { return nil }
func (g *shape844) What() string              { return "shape" }
func (g *shape844) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape845 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	f3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	f5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	f7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	f9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	f11 tok.Rule `name:"a11"`
}

func (g *shape845) Read(s *tok.Scanner) error { return nil }
func (g *shape845) What() string              { return "shape" }
func (g *shape845) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape846 struct {
	F0  string   `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape846) Read(s *tok.Scanner) error { return nil }
func (g *shape846) What() string              { return "shape" }
func (g *shape846) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape847 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape847) Read(s *tok.Scanner) error { return nil }
func (g *shape847) What() string              { return "shape" }
func (g *shape847) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape848 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  string   `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape848) Read(s *tok.Scanner) error { return nil }
func (g *shape848) What() string              { return "shape" }
func (g *shape848) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape849 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 string   `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape849) Read(s *tok.Scanner) error { return nil }
func (g *shape849) What() string              { return "shape" }
func (g *shape849) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape850 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 string   `name:"a11"`
}

func (g *shape850) Read(s *tok.Scanner) error { return nil }
func (g *shape850) What() string              { return "shape" }
func (g *shape850) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape851 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  string   `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  string   `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  string   `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  string   `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 string   `name:"a11"`
}

func (g *shape851) Read(s *tok.Scanner) error { return nil }
func (g *shape851) What() string              { return "shape" }
func (g *shape851) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape852 struct {
	F0  tok.Rule `json:"z0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape852) Read(s *tok.Scanner) error { return nil }
func (g *shape852) What() string              { return "shape" }
func (g *shape852) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape853 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape853) Read(s *tok.Scanner) error { return nil }
func (g *shape853) What() string              { return "shape" }
func (g *shape853) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape854 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `json:"z6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape854) Read(s *tok.Scanner) error { return nil }
func (g *shape854) What() string              { return "shape" }
func (g *shape854) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape855 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `json:"z10"`
	F11 tok.Rule `name:"a11"`
}

func (g *shape855) Read(s *tok.Scanner) error { return nil }
func (g *shape855) What() string              { return "shape" }
func (g *shape855) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape856 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `json:"z11"`
}

func (g *shape856) Read(s *tok.Scanner) error { return nil }
func (g *shape856) What() string              { return "shape" }
func (g *shape856) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape857 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `json:"z3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `json:"z5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `json:"z7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `json:"z9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `json:"z11"`
}

func (g *shape857) Read(s *tok.Scanner) error { return nil }
func (g *shape857) What() string              { return "shape" }
func (g *shape857) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape858 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape858) Read(s *tok.Scanner) error { return nil }
func (g *shape858) What() string              { return "shape" }
func (g *shape858) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape859 struct {
	F0  tok.Rule
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape859) Read(s *tok.Scanner) error { return nil }
func (g *shape859) What() string              { return "shape" }
func (g *shape859) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape860 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape860) Read(s *tok.Scanner) error { return nil }
func (g *shape860) What() string              { return "shape" }
func (g *shape860) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape861 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape861) Read(s *tok.Scanner) error { return nil }
func (g *shape861) What() string              { return "shape" }
func (g *shape861) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape862 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule
	F15 tok.Rule `name:"a15"`
}

func (g *shape862) Read(s *tok.Scanner) error { return nil }
func (g *shape862) What() string              { return "shape" }
func (g *shape862) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape863 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule
}

func (g *shape863) Read(s *tok.Scanner) error { return nil }
func (g *shape863) What() string              { return "shape" }
func (g *shape863) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape864 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule
}

func (g *shape864) Read(s *tok.Scanner) error { return nil }
func (g *shape864) What() string              { return "shape" }
func (g *shape864) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape865 struct {
	F0  tok.Rule `name:"0x"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape865) Read(s *tok.Scanner) error { return nil }
func (g *shape865) What() string              { return "shape" }
func (g *shape865) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape866 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape866) Read(s *tok.Scanner) error { return nil }
func (g *shape866) What() string              { return "shape" }
func (g *shape866) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape867 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"8x"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape867) Read(s *tok.Scanner) error { return nil }
func (g *shape867) What() string              { return "shape" }
func (g *shape867) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape868 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"14x"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape868) Read(s *tok.Scanner) error { return nil }
func (g *shape868) What() string              { return "shape" }
func (g *shape868) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape869 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"15x"`
}

func (g *shape869) Read(s *tok.Scanner) error { return nil }
func (g *shape869) What() string              { return "shape" }
func (g *shape869) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape870 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"3x"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"5x"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"7x"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"9x"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"11x"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"13x"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"15x"`
}

func (g *shape870) Read(s *tok.Scanner) error { return nil }
func (g *shape870) What() string              { return "shape" }
func (g *shape870) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape871 struct {
	f0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape871) Read(s *tok.Scanner) error { return nil }
func (g *shape871) What() string              { return "shape" }
func (g *shape871) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape872 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape872) Read(s *tok.Scanner) error { return nil }
func (g *shape872) What() string              { return "shape" }
func (g *shape872) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape873 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	f8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape873) Read(s *tok.Scanner) error { return nil }
func (g *shape873) What() string              { return "shape" }
func (g *shape873) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape874 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	f14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape874) Read(s *tok.Scanner) error { return nil }
func (g *shape874) What() string              { return "shape" }
func (g *shape874) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape875 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	f15 tok.Rule `name:"a15"`
}

func (g *shape875) Read(s *tok.Scanner) error { return nil }
func (g *shape875) What() string              { return "shape" }
func (g *shape875) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape876 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	f3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	f5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	f7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	f9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	f11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	f13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	f15 tok.Rule `name:"a15"`
}

func (g *shape876) Read(s *tok.Scanner) error { return nil }
func (g *shape876) What() string              { return "shape" }
func (g *shape876) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape877 struct {
	F0  string   `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape877) Read(s *tok.Scanner) error { return nil }
func (g *shape877) What() string              { return "shape" }
func (g *shape877) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape878 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape878) Read(s *tok.Scanner) error { return nil }
func (g *shape878) What() string              { return "shape" }
func (g *shape878) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape879 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  string   `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape879) Read(s *tok.Scanner) error { return nil }
func (g *shape879) What() string              { return "shape" }
func (g *shape879) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape880 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 string   `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape880) Read(s *tok.Scanner) error { return nil }
func (g *shape880) What() string              { return "shape" }
func (g *shape880) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape881 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 string   `name:"a15"`
}

func (g *shape881) Read(s *tok.Scanner) error { return nil }
func (g *shape881) What() string              { return "shape" }
func (g *shape881) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape882 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  string   `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  string   `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  string   `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  string   `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 string   `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 string   `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 string   `name:"a15"`
}

func (g *shape882) Read(s *tok.Scanner) error { return nil }
func (g *shape882) What() string              { return "shape" }
func (g *shape882) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape883 struct {
	F0  tok.Rule `json:"z0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape883) Read(s *tok.Scanner) error { return nil }
func (g *shape883) What() string              { return "shape" }
func (g *shape883) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape884 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape884) Read(s *tok.Scanner) error { return nil }
func (g *shape884) What() string              { return "shape" }
func (g *shape884) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape885 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `json:"z8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape885) Read(s *tok.Scanner) error { return nil }
func (g *shape885) What() string              { return "shape" }
func (g *shape885) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape886 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `json:"z14"`
	F15 tok.Rule `name:"a15"`
}

func (g *shape886) Read(s *tok.Scanner) error { return nil }
func (g *shape886) What() string              { return "shape" }
func (g *shape886) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape887 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `json:"z15"`
}

func (g *shape887) Read(s *tok.Scanner) error { return nil }
func (g *shape887) What() string              { return "shape" }
func (g *shape887) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape888 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `json:"z3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `json:"z5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `json:"z7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `json:"z9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `json:"z11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `json:"z13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `json:"z15"`
}

func (g *shape888) Read(s *tok.Scanner) error { return nil }
func (g *shape888) What() string              { return "shape" }
func (g *shape888) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape889 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape889) Read(s *tok.Scanner) error { return nil }
func (g *shape889) What() string              { return "shape" }
func (g *shape889) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape890 struct {
	F0  tok.Rule
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape890) Read(s *tok.Scanner) error { return nil }
func (g *shape890) What() string              { return "shape" }
func (g *shape890) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape891 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape891) Read(s *tok.Scanner) error { return nil }
func (g *shape891) What() string              { return "shape" }
func (g *shape891) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape892 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape892) Read(s *tok.Scanner) error { return nil }
func (g *shape892) What() string              { return "shape" }
func (g *shape892) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape893 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule
	F19 tok.Rule `name:"a19"`
}

func (g *shape893) Read(s *tok.Scanner) error { return nil }
func (g *shape893) What() string              { return "shape" }
func (g *shape893) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape894 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule
}

func (g *shape894) Read(s *tok.Scanner) error { return nil }
func (g *shape894) What() string              { return "shape" }
func (g *shape894) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape895 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule
}

func (g *shape895) Read(s *tok.Scanner) error { return nil }
func (g *shape895) What() string              { return "shape" }
func (g *shape895) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape896 struct {
	F0  tok.Rule `name:"0x"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape896) Read(s *tok.Scanner) error { return nil }
func (g *shape896) What() string              { return "shape" }
func (g *shape896) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape897 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape897) Read(s *tok.Scanner) error { return nil }
func (g *shape897) What() string              { return "shape" }
func (g *shape897) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape898 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"10x"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape898) Read(s *tok.Scanner) error { return nil }
func (g *shape898) What() string              { return "shape" }
func (g *shape898) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape899 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"18x"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape899) Read(s *tok.Scanner) error { return nil }
func (g *shape899) What() string              { return "shape" }
func (g *shape899) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape900 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"19x"`
}

func (g *shape900) Read(s *tok.Scanner) error { return nil }
func (g *shape900) What() string              { return "shape" }
func (g *shape900) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape901 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"3x"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"5x"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"7x"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"9x"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"11x"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"13x"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"15x"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"17x"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"19x"`
}

func (g *shape901) Read(s *tok.Scanner) error { return nil }
func (g *shape901) What() string              { return "shape" }
func (g *shape901) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape902 struct {
	f0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape902) Read(s *tok.Scanner) error { return nil }
func (g *shape902) What() string              { return "shape" }
func (g *shape902) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape903 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape903) Read(s *tok.Scanner) error { return nil }
func (g *shape903) What() string              { return "shape" }
func (g *shape903) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape904 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	f10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape904) Read(s *tok.Scanner) error { return nil }
func (g *shape904) What() string              { return "shape" }
func (g *shape904) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape905 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	f18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape905) Read(s *tok.Scanner) error { return nil }
func (g *shape905) What() string              { return "shape" }
func (g *shape905) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape906 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	f19 tok.Rule `name:"a19"`
}

func (g *shape906) Read(s *tok.Scanner) error { return nil }
func (g *shape906) What() string              { return "shape" }
func (g *shape906) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape907 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	f3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	f5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	f7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	f9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	f11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	f13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	f15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	f17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	f19 tok.Rule `name:"a19"`
}

func (g *shape907) Read(s *tok.Scanner) error { return nil }
func (g *shape907) What() string              { return "shape" }
func (g *shape907) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape908 struct {
	F0  string   `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape908) Read(s *tok.Scanner) error { return nil }
func (g *shape908) What() string              { return "shape" }
func (g *shape908) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape909 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape909) Read(s *tok.Scanner) error { return nil }
func (g *shape909) What() string              { return "shape" }
func (g *shape909) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape910 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 string   `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape910) Read(s *tok.Scanner) error { return nil }
func (g *shape910) What() string              { return "shape" }
func (g *shape910) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape911 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 string   `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape911) Read(s *tok.Scanner) error { return nil }
func (g *shape911) What() string              { return "shape" }
func (g *shape911) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape912 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 string   `name:"a19"`
}

func (g *shape912) Read(s *tok.Scanner) error { return nil }
func (g *shape912) What() string              { return "shape" }
func (g *shape912) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape913 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  string   `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  string   `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  string   `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  string   `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 string   `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 string   `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 string   `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 string   `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 string   `name:"a19"`
}

func (g *shape913) Read(s *tok.Scanner) error { return nil }
func (g *shape913) What() string              { return "shape" }
func (g *shape913) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape914 struct {
	F0  tok.Rule `json:"z0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape914) Read(s *tok.Scanner) error { return nil }
func (g *shape914) What() string              { return "shape" }
func (g *shape914) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape915 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape915) Read(s *tok.Scanner) error { return nil }
func (g *shape915) What() string              { return "shape" }
func (g *shape915) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape916 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `json:"z10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape916) Read(s *tok.Scanner) error { return nil }
func (g *shape916) What() string              { return "shape" }
func (g *shape916) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape917 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `json:"z18"`
	F19 tok.Rule `name:"a19"`
}

func (g *shape917) Read(s *tok.Scanner) error { return nil }
func (g *shape917) What() string              { return "shape" }
func (g *shape917) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape918 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `json:"z19"`
}

func (g *shape918) Read(s *tok.Scanner) error { return nil }
func (g *shape918) What() string              { return "shape" }
func (g *shape918) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape919 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `json:"z3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `json:"z5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `json:"z7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `json:"z9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `json:"z11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `json:"z13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `json:"z15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `json:"z17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `json:"z19"`
}

func (g *shape919) Read(s *tok.Scanner) error { return nil }
func (g *shape919) What() string              { return "shape" }
func (g *shape919) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape920 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape920) Read(s *tok.Scanner) error { return nil }
func (g *shape920) What() string              { return "shape" }
func (g *shape920) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape921 struct {
	F0  tok.Rule
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape921) Read(s *tok.Scanner) error { return nil }
func (g *shape921) What() string              { return "shape" }
func (g *shape921) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape922 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape922) Read(s *tok.Scanner) error { return nil }
func (g *shape922) What() string              { return "shape" }
func (g *shape922) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape923 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape923) Read(s *tok.Scanner) error { return nil }
func (g *shape923) What() string              { return "shape" }
func (g *shape923) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape924 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule
	F31 tok.Rule `name:"a31"`
}

func (g *shape924) Read(s *tok.Scanner) error { return nil }
func (g *shape924) What() string              { return "shape" }
func (g *shape924) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape925 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule
}

func (g *shape925) Read(s *tok.Scanner) error { return nil }
func (g *shape925) What() string              { return "shape" }
func (g *shape925) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape926 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule
}

func (g *shape926) Read(s *tok.Scanner) error { return nil }
func (g *shape926) What() string              { return "shape" }
func (g *shape926) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape927 struct {
	F0  tok.Rule `name:"0x"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape927) Read(s *tok.Scanner) error { return nil }
func (g *shape927) What() string              { return "shape" }
func (g *shape927) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape928 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape928) Read(s *tok.Scanner) error { return nil }
func (g *shape928) What() string              { return "shape" }
func (g *shape928) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape929 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"16x"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape929) Read(s *tok.Scanner) error { return nil }
func (g *shape929) What() string              { return "shape" }
func (g *shape929) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape930 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"30x"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape930) Read(s *tok.Scanner) error { return nil }
func (g *shape930) What() string              { return "shape" }
func (g *shape930) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape931 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"31x"`
}

func (g *shape931) Read(s *tok.Scanner) error { return nil }
func (g *shape931) What() string              { return "shape" }
func (g *shape931) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape932 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"1x"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"3x"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"5x"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"7x"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"9x"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"11x"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"13x"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"15x"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"17x"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"19x"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"21x"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"23x"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"25x"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"27x"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"29x"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"31x"`
}

func (g *shape932) Read(s *tok.Scanner) error { return nil }
func (g *shape932) What() string              { return "shape" }
func (g *shape932) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape933 struct {
	f0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape933) Read(s *tok.Scanner) error { return nil }
func (g *shape933) What() string              { return "shape" }
func (g *shape933) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape934 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape934) Read(s *tok.Scanner) error { return nil }
func (g *shape934) What() string              { return "shape" }
func (g *shape934) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape935 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	f16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape935) Read(s *tok.Scanner) error { return nil }
func (g *shape935) What() string              { return "shape" }
func (g *shape935) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape936 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	f30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape936) Read(s *tok.Scanner) error { return nil }
func (g *shape936) What() string              { return "shape" }
func (g *shape936) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape937 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	f31 tok.Rule `name:"a31"`
}

func (g *shape937) Read(s *tok.Scanner) error { return nil }
func (g *shape937) What() string              { return "shape" }
func (g *shape937) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape938 struct {
	F0  tok.Rule `name:"a0"`
	f1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	f3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	f5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	f7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	f9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	f11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	f13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	f15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	f17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	f19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	f21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	f23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	f25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	f27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	f29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	f31 tok.Rule `name:"a31"`
}

func (g *shape938) Read(s *tok.Scanner) error { return nil }
func (g *shape938) What() string              { return "shape" }
func (g *shape938) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape939 struct {
	F0  string   `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape939) Read(s *tok.Scanner) error { return nil }
func (g *shape939) What() string              { return "shape" }
func (g *shape939) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape940 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape940) Read(s *tok.Scanner) error { return nil }
func (g *shape940) What() string              { return "shape" }
func (g *shape940) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape941 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 string   `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape941) Read(s *tok.Scanner) error { return nil }
func (g *shape941) What() string              { return "shape" }
func (g *shape941) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape942 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 string   `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape942) Read(s *tok.Scanner) error { return nil }
func (g *shape942) What() string              { return "shape" }
func (g *shape942) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape943 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 string   `name:"a31"`
}

func (g *shape943) Read(s *tok.Scanner) error { return nil }
func (g *shape943) What() string              { return "shape" }
func (g *shape943) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape944 struct {
	F0  tok.Rule `name:"a0"`
	F1  string   `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  string   `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  string   `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  string   `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  string   `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 string   `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 string   `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 string   `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 string   `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 string   `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 string   `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 string   `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 string   `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 string   `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 string   `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 string   `name:"a31"`
}

func (g *shape944) Read(s *tok.Scanner) error { return nil }
func (g *shape944) What() string              { return "shape" }
func (g *shape944) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape945 struct {
	F0  tok.Rule `json:"z0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape945) Read(s *tok.Scanner) error { return nil }
func (g *shape945) What() string              { return "shape" }
func (g *shape945) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape946 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape946) Read(s *tok.Scanner) error { return nil }
func (g *shape946) What() string              { return "shape" }
func (g *shape946) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape947 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `json:"z16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape947) Read(s *tok.Scanner) error { return nil }
func (g *shape947) What() string              { return "shape" }
func (g *shape947) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape948 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `json:"z30"`
	F31 tok.Rule `name:"a31"`
}

func (g *shape948) Read(s *tok.Scanner) error { return nil }
func (g *shape948) What() string              { return "shape" }
func (g *shape948) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape949 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `name:"a1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `name:"a3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `name:"a5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `name:"a7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `name:"a9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `name:"a11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `name:"a13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `name:"a15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `name:"a17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `name:"a19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `name:"a21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `name:"a23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `name:"a25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `name:"a27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `name:"a29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `json:"z31"`
}

func (g *shape949) Read(s *tok.Scanner) error { return nil }
func (g *shape949) What() string              { return "shape" }
func (g *shape949) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape950 struct {
	F0  tok.Rule `name:"a0"`
	F1  tok.Rule `json:"z1"`
	F2  tok.Rule `name:"a2"`
	F3  tok.Rule `json:"z3"`
	F4  tok.Rule `name:"a4"`
	F5  tok.Rule `json:"z5"`
	F6  tok.Rule `name:"a6"`
	F7  tok.Rule `json:"z7"`
	F8  tok.Rule `name:"a8"`
	F9  tok.Rule `json:"z9"`
	F10 tok.Rule `name:"a10"`
	F11 tok.Rule `json:"z11"`
	F12 tok.Rule `name:"a12"`
	F13 tok.Rule `json:"z13"`
	F14 tok.Rule `name:"a14"`
	F15 tok.Rule `json:"z15"`
	F16 tok.Rule `name:"a16"`
	F17 tok.Rule `json:"z17"`
	F18 tok.Rule `name:"a18"`
	F19 tok.Rule `json:"z19"`
	F20 tok.Rule `name:"a20"`
	F21 tok.Rule `json:"z21"`
	F22 tok.Rule `name:"a22"`
	F23 tok.Rule `json:"z23"`
	F24 tok.Rule `name:"a24"`
	F25 tok.Rule `json:"z25"`
	F26 tok.Rule `name:"a26"`
	F27 tok.Rule `json:"z27"`
	F28 tok.Rule `name:"a28"`
	F29 tok.Rule `json:"z29"`
	F30 tok.Rule `name:"a30"`
	F31 tok.Rule `json:"z31"`
}

func (g *shape950) Read(s *tok.Scanner) error { return nil }
func (g *shape950) What() string              { return "shape" }
func (g *shape950) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape951 struct {
	F0 tok.Rule
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape951) Read(s *tok.Scanner) error { return nil }
func (g *shape951) What() string              { return "shape" }
func (g *shape951) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape952 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape952) Read(s *tok.Scanner) error { return nil }
func (g *shape952) What() string              { return "shape" }
func (g *shape952) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape953 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape953) Read(s *tok.Scanner) error { return nil }
func (g *shape953) What() string              { return "shape" }
func (g *shape953) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape954 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape954) Read(s *tok.Scanner) error { return nil }
func (g *shape954) What() string              { return "shape" }
func (g *shape954) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape955 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape955) Read(s *tok.Scanner) error { return nil }
func (g *shape955) What() string              { return "shape" }
func (g *shape955) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape956 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape956) Read(s *tok.Scanner) error { return nil }
func (g *shape956) What() string              { return "shape" }
func (g *shape956) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape957 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape957) Read(s *tok.Scanner) error { return nil }
func (g *shape957) What() string              { return "shape" }
func (g *shape957) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape958 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape958) Read(s *tok.Scanner) error { return nil }
func (g *shape958) What() string              { return "shape" }
func (g *shape958) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape959 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule
}

func (g *shape959) Read(s *tok.Scanner) error { return nil }
func (g *shape959) What() string              { return "shape" }
func (g *shape959) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape960 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape960) Read(s *tok.Scanner) error { return nil }
func (g *shape960) What() string              { return "shape" }
func (g *shape960) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape961 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape961) Read(s *tok.Scanner) error { return nil }
func (g *shape961) What() string              { return "shape" }
func (g *shape961) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape962 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape962) Read(s *tok.Scanner) error { return nil }
func (g *shape962) What() string              { return "shape" }
func (g *shape962) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape963 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape963) Read(s *tok.Scanner) error { return nil }
func (g *shape963) What() string              { return "shape" }
func (g *shape963) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape964 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape964) Read(s *tok.Scanner) error { return nil }
func (g *shape964) What() string              { return "shape" }
func (g *shape964) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape965 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape965) Read(s *tok.Scanner) error { return nil }
func (g *shape965) What() string              { return "shape" }
func (g *shape965) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape966 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape966) Read(s *tok.Scanner) error { return nil }
func (g *shape966) What() string              { return "shape" }
func (g *shape966) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape967 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape967) Read(s *tok.Scanner) error { return nil }
func (g *shape967) What() string              { return "shape" }
func (g *shape967) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape968 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"5x"`
}

func (g *shape968) Read(s *tok.Scanner) error { return nil }
func (g *shape968) What() string              { return "shape" }
func (g *shape968) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape969 struct {
	F0 tok.Rule
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape969) Read(s *tok.Scanner) error { return nil }
func (g *shape969) What() string              { return "shape" }
func (g *shape969) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape970 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape970) Read(s *tok.Scanner) error { return nil }
func (g *shape970) What() string              { return "shape" }
func (g *shape970) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape971 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape971) Read(s *tok.Scanner) error { return nil }
func (g *shape971) What() string              { return "shape" }
func (g *shape971) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape972 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape972) Read(s *tok.Scanner) error { return nil }
func (g *shape972) What() string              { return "shape" }
func (g *shape972) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape973 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape973) Read(s *tok.Scanner) error { return nil }
func (g *shape973) What() string              { return "shape" }
func (g *shape973) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape974 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape974) Read(s *tok.Scanner) error { return nil }
func (g *shape974) What() string              { return "shape" }
func (g *shape974) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape975 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape975) Read(s *tok.Scanner) error { return nil }
func (g *shape975) What() string              { return "shape" }
func (g *shape975) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape976 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape976) Read(s *tok.Scanner) error { return nil }
func (g *shape976) What() string              { return "shape" }
func (g *shape976) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape977 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	f5 tok.Rule `name:"a5"`
}

func (g *shape977) Read(s *tok.Scanner) error { return nil }
func (g *shape977) What() string              { return "shape" }
func (g *shape977) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape978 struct {
	F0 tok.Rule
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape978) Read(s *tok.Scanner) error { return nil }
func (g *shape978) What() string              { return "shape" }
func (g *shape978) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape979 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape979) Read(s *tok.Scanner) error { return nil }
func (g *shape979) What() string              { return "shape" }
func (g *shape979) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape980 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape980) Read(s *tok.Scanner) error { return nil }
func (g *shape980) What() string              { return "shape" }
func (g *shape980) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape981 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape981) Read(s *tok.Scanner) error { return nil }
func (g *shape981) What() string              { return "shape" }
func (g *shape981) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape982 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape982) Read(s *tok.Scanner) error { return nil }
func (g *shape982) What() string              { return "shape" }
func (g *shape982) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape983 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape983) Read(s *tok.Scanner) error { return nil }
func (g *shape983) What() string              { return "shape" }
func (g *shape983) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape984 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape984) Read(s *tok.Scanner) error { return nil }
func (g *shape984) What() string              { return "shape" }
func (g *shape984) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape985 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape985) Read(s *tok.Scanner) error { return nil }
func (g *shape985) What() string              { return "shape" }
func (g *shape985) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape986 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 string `name:"a5"`
}

func (g *shape986) Read(s *tok.Scanner) error { return nil }
func (g *shape986) What() string              { return "shape" }
func (g *shape986) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape987 struct {
	F0 tok.Rule
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape987) Read(s *tok.Scanner) error { return nil }
func (g *shape987) What() string              { return "shape" }
func (g *shape987) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape988 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape988) Read(s *tok.Scanner) error { return nil }
func (g *shape988) What() string              { return "shape" }
func (g *shape988) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape989 struct {
	F0 tok.Rule
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape989) Read(s *tok.Scanner) error { return nil }
func (g *shape989) What() string              { return "shape" }
func (g *shape989) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape990 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape990) Read(s *tok.Scanner) error { return nil }
func (g *shape990) What() string              { return "shape" }
func (g *shape990) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape991 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape991) Read(s *tok.Scanner) error { return nil }
func (g *shape991) What() string              { return "shape" }
func (g *shape991) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape992 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape992) Read(s *tok.Scanner) error { return nil }
func (g *shape992) What() string              { return "shape" }
func (g *shape992) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape993 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape993) Read(s *tok.Scanner) error { return nil }
func (g *shape993) What() string              { return "shape" }
func (g *shape993) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape994 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape994) Read(s *tok.Scanner) error { return nil }
func (g *shape994) What() string              { return "shape" }
func (g *shape994) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape995 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `json:"z5"`
}

func (g *shape995) Read(s *tok.Scanner) error { return nil }
func (g *shape995) What() string              { return "shape" }
func (g *shape995) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape996 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape996) Read(s *tok.Scanner) error { return nil }
func (g *shape996) What() string              { return "shape" }
func (g *shape996) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape997 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape997) Read(s *tok.Scanner) error { return nil }
func (g *shape997) What() string              { return "shape" }
func (g *shape997) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape998 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape998) Read(s *tok.Scanner) error { return nil }
func (g *shape998) What() string              { return "shape" }
func (g *shape998) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape999 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape999) Read(s *tok.Scanner) error { return nil }
func (g *shape999) What() string              { return "shape" }
func (g *shape999) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1000 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1000) Read(s *tok.Scanner) error { return nil }
func (g *shape1000) What() string              { return "shape" }
func (g *shape1000) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1001 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1001) Read(s *tok.Scanner) error { return nil }
func (g *shape1001) What() string              { return "shape" }
func (g *shape1001) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1002 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1002) Read(s *tok.Scanner) error { return nil }
func (g *shape1002) What() string              { return "shape" }
func (g *shape1002) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1003 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1003) Read(s *tok.Scanner) error { return nil }
func (g *shape1003) What() string              { return "shape" }
func (g *shape1003) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1004 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule
}

func (g *shape1004) Read(s *tok.Scanner) error { return nil }
func (g *shape1004) What() string              { return "shape" }
func (g *shape1004) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1005 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1005) Read(s *tok.Scanner) error { return nil }
func (g *shape1005) What() string              { return "shape" }
func (g *shape1005) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1006 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1006) Read(s *tok.Scanner) error { return nil }
func (g *shape1006) What() string              { return "shape" }
func (g *shape1006) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1007 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1007) Read(s *tok.Scanner) error { return nil }
func (g *shape1007) What() string              { return "shape" }
func (g *shape1007) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1008 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1008) Read(s *tok.Scanner) error { return nil }
func (g *shape1008) What() string              { return "shape" }
func (g *shape1008) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1009 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1009) Read(s *tok.Scanner) error { return nil }
func (g *shape1009) What() string              { return "shape" }
func (g *shape1009) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1010 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1010) Read(s *tok.Scanner) error { return nil }
func (g *shape1010) What() string              { return "shape" }
func (g *shape1010) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1011 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1011) Read(s *tok.Scanner) error { return nil }
func (g *shape1011) What() string              { return "shape" }
func (g *shape1011) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1012 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1012) Read(s *tok.Scanner) error { return nil }
func (g *shape1012) What() string              { return "shape" }
func (g *shape1012) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1013 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1013) Read(s *tok.Scanner) error { return nil }
func (g *shape1013) What() string              { return "shape" }
func (g *shape1013) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1014 struct {
	F0 tok.Rule `name:"0x"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1014) Read(s *tok.Scanner) error { return nil }
func (g *shape1014) What() string              { return "shape" }
func (g *shape1014) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1015 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1015) Read(s *tok.Scanner) error { return nil }
func (g *shape1015) What() string              { return "shape" }
func (g *shape1015) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1016 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1016) Read(s *tok.Scanner) error { return nil }
func (g *shape1016) What() string              { return "shape" }
func (g *shape1016) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1017 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1017) Read(s *tok.Scanner) error { return nil }
func (g *shape1017) What() string              { return "shape" }
func (g *shape1017) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1018 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1018) Read(s *tok.Scanner) error { return nil }
func (g *shape1018) What() string              { return "shape" }
func (g *shape1018) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1019 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1019) Read(s *tok.Scanner) error { return nil }
func (g *shape1019) What() string              { return "shape" }
func (g *shape1019) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1020 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1020) Read(s *tok.Scanner) error { return nil }
func (g *shape1020) What() string              { return "shape" }
func (g *shape1020) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1021 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1021) Read(s *tok.Scanner) error { return nil }
func (g *shape1021) What() string              { return "shape" }
func (g *shape1021) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1022 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1022) Read(s *tok.Scanner) error { return nil }
func (g *shape1022) What() string              { return "shape" }
func (g *shape1022) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1023 struct {
	F0 tok.Rule `name:"0x"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1023) Read(s *tok.Scanner) error { return nil }
func (g *shape1023) What() string              { return "shape" }
func (g *shape1023) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1024 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1024) Read(s *tok.Scanner) error { return nil }
func (g *shape1024) What() string              { return "shape" }
func (g *shape1024) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1025 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1025) Read(s *tok.Scanner) error { return nil }
func (g *shape1025) What() string              { return "shape" }
func (g *shape1025) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1026 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1026) Read(s *tok.Scanner) error { return nil }
func (g *shape1026) What() string              { return "shape" }
func (g *shape1026) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1027 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1027) Read(s *tok.Scanner) error { return nil }
func (g *shape1027) What() string              { return "shape" }
func (g *shape1027) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1028 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1028) Read(s *tok.Scanner) error { return nil }
func (g *shape1028) What() string              { return "shape" }
func (g *shape1028) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1029 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1029) Read(s *tok.Scanner) error { return nil }
func (g *shape1029) What() string              { return "shape" }
func (g *shape1029) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1030 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1030) Read(s *tok.Scanner) error { return nil }
func (g *shape1030) What() string              { return "shape" }
func (g *shape1030) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1031 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 string   `name:"a5"`
}

func (g *shape1031) Read(s *tok.Scanner) error { return nil }
func (g *shape1031) What() string              { return "shape" }
func (g *shape1031) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1032 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1032) Read(s *tok.Scanner) error { return nil }
func (g *shape1032) What() string              { return "shape" }
func (g *shape1032) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1033 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1033) Read(s *tok.Scanner) error { return nil }
func (g *shape1033) What() string              { return "shape" }
func (g *shape1033) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1034 struct {
	F0 tok.Rule `name:"0x"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1034) Read(s *tok.Scanner) error { return nil }
func (g *shape1034) What() string              { return "shape" }
func (g *shape1034) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1035 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1035) Read(s *tok.Scanner) error { return nil }
func (g *shape1035) What() string              { return "shape" }
func (g *shape1035) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1036 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1036) Read(s *tok.Scanner) error { return nil }
func (g *shape1036) What() string              { return "shape" }
func (g *shape1036) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1037 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1037) Read(s *tok.Scanner) error { return nil }
func (g *shape1037) What() string              { return "shape" }
func (g *shape1037) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1038 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1038) Read(s *tok.Scanner) error { return nil }
func (g *shape1038) What() string              { return "shape" }
func (g *shape1038) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1039 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1039) Read(s *tok.Scanner) error { return nil }
func (g *shape1039) What() string              { return "shape" }
func (g *shape1039) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1040 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1040) Read(s *tok.Scanner) error { return nil }
func (g *shape1040) What() string              { return "shape" }
func (g *shape1040) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1041 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1041) Read(s *tok.Scanner) error { return nil }
func (g *shape1041) What() string              { return "shape" }
func (g *shape1041) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1042 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1042) Read(s *tok.Scanner) error { return nil }
func (g *shape1042) What() string              { return "shape" }
func (g *shape1042) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1043 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1043) Read(s *tok.Scanner) error { return nil }
func (g *shape1043) What() string              { return "shape" }
func (g *shape1043) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1044 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1044) Read(s *tok.Scanner) error { return nil }
func (g *shape1044) What() string              { return "shape" }
func (g *shape1044) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1045 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1045) Read(s *tok.Scanner) error { return nil }
func (g *shape1045) What() string              { return "shape" }
func (g *shape1045) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1046 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1046) Read(s *tok.Scanner) error { return nil }
func (g *shape1046) What() string              { return "shape" }
func (g *shape1046) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1047 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1047) Read(s *tok.Scanner) error { return nil }
func (g *shape1047) What() string              { return "shape" }
func (g *shape1047) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1048 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1048) Read(s *tok.Scanner) error { return nil }
func (g *shape1048) What() string              { return "shape" }
func (g *shape1048) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1049 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1049) Read(s *tok.Scanner) error { return nil }
func (g *shape1049) What() string              { return "shape" }
func (g *shape1049) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1050 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1050) Read(s *tok.Scanner) error { return nil }
func (g *shape1050) What() string              { return "shape" }
func (g *shape1050) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1051 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1051) Read(s *tok.Scanner) error { return nil }
func (g *shape1051) What() string              { return "shape" }
func (g *shape1051) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1052 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1052) Read(s *tok.Scanner) error { return nil }
func (g *shape1052) What() string              { return "shape" }
func (g *shape1052) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1053 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1053) Read(s *tok.Scanner) error { return nil }
func (g *shape1053) What() string              { return "shape" }
func (g *shape1053) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1054 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1054) Read(s *tok.Scanner) error { return nil }
func (g *shape1054) What() string              { return "shape" }
func (g *shape1054) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1055 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1055) Read(s *tok.Scanner) error { return nil }
func (g *shape1055) What() string              { return "shape" }
func (g *shape1055) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1056 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1056) Read(s *tok.Scanner) error { return nil }
func (g *shape1056) What() string              { return "shape" }
func (g *shape1056) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1057 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1057) Read(s *tok.Scanner) error { return nil }
func (g *shape1057) What() string              { return "shape" }
func (g *shape1057) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1058 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1058) Read(s *tok.Scanner) error { return nil }
func (g *shape1058) What() string              { return "shape" }
func (g *shape1058) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1059 struct {
	f0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1059) Read(s *tok.Scanner) error { return nil }
func (g *shape1059) What() string              { return "shape" }
func (g *shape1059) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1060 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1060) Read(s *tok.Scanner) error { return nil }
func (g *shape1060) What() string              { return "shape" }
func (g *shape1060) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1061 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1061) Read(s *tok.Scanner) error { return nil }
func (g *shape1061) What() string              { return "shape" }
func (g *shape1061) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1062 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1062) Read(s *tok.Scanner) error { return nil }
func (g *shape1062) What() string              { return "shape" }
func (g *shape1062) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1063 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1063) Read(s *tok.Scanner) error { return nil }
func (g *shape1063) What() string              { return "shape" }
func (g *shape1063) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1064 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1064) Read(s *tok.Scanner) error { return nil }
func (g *shape1064) What() string              { return "shape" }
func (g *shape1064) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1065 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1065) Read(s *tok.Scanner) error { return nil }
func (g *shape1065) What() string              { return "shape" }
func (g *shape1065) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1066 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1066) Read(s *tok.Scanner) error { return nil }
func (g *shape1066) What() string              { return "shape" }
func (g *shape1066) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1067 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1067) Read(s *tok.Scanner) error { return nil }
func (g *shape1067) What() string              { return "shape" }
func (g *shape1067) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1068 struct {
	f0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1068) Read(s *tok.Scanner) error { return nil }
func (g *shape1068) What() string              { return "shape" }
func (g *shape1068) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1069 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1069) Read(s *tok.Scanner) error { return nil }
func (g *shape1069) What() string              { return "shape" }
func (g *shape1069) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1070 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1070) Read(s *tok.Scanner) error { return nil }
func (g *shape1070) What() string              { return "shape" }
func (g *shape1070) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1071 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1071) Read(s *tok.Scanner) error { return nil }
func (g *shape1071) What() string              { return "shape" }
func (g *shape1071) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1072 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1072) Read(s *tok.Scanner) error { return nil }
func (g *shape1072) What() string              { return "shape" }
func (g *shape1072) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1073 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1073) Read(s *tok.Scanner) error { return nil }
func (g *shape1073) What() string              { return "shape" }
func (g *shape1073) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1074 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1074) Read(s *tok.Scanner) error { return nil }
func (g *shape1074) What() string              { return "shape" }
func (g *shape1074) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1075 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1075) Read(s *tok.Scanner) error { return nil }
func (g *shape1075) What() string              { return "shape" }
func (g *shape1075) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1076 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1076) Read(s *tok.Scanner) error { return nil }
func (g *shape1076) What() string              { return "shape" }
func (g *shape1076) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1077 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1077) Read(s *tok.Scanner) error { return nil }
func (g *shape1077) What() string              { return "shape" }
func (g *shape1077) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1078 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1078) Read(s *tok.Scanner) error { return nil }
func (g *shape1078) What() string              { return "shape" }
func (g *shape1078) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1079 struct {
	f0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1079) Read(s *tok.Scanner) error { return nil }
func (g *shape1079) What() string              { return "shape" }
func (g *shape1079) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1080 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1080) Read(s *tok.Scanner) error { return nil }
func (g *shape1080) What() string              { return "shape" }
func (g *shape1080) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1081 struct {
	F0 tok.Rule `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1081) Read(s *tok.Scanner) error { return nil }
func (g *shape1081) What() string              { return "shape" }
func (g *shape1081) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1082 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1082) Read(s *tok.Scanner) error { return nil }
func (g *shape1082) What() string              { return "shape" }
func (g *shape1082) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1083 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1083) Read(s *tok.Scanner) error { return nil }
func (g *shape1083) What() string              { return "shape" }
func (g *shape1083) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1084 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1084) Read(s *tok.Scanner) error { return nil }
func (g *shape1084) What() string              { return "shape" }
func (g *shape1084) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1085 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1085) Read(s *tok.Scanner) error { return nil }
func (g *shape1085) What() string              { return "shape" }
func (g *shape1085) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1086 struct {
	F0 string `name:"a0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1086) Read(s *tok.Scanner) error { return nil }
func (g *shape1086) What() string              { return "shape" }
func (g *shape1086) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1087 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1087) Read(s *tok.Scanner) error { return nil }
func (g *shape1087) What() string              { return "shape" }
func (g *shape1087) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1088 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1088) Read(s *tok.Scanner) error { return nil }
func (g *shape1088) What() string              { return "shape" }
func (g *shape1088) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1089 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1089) Read(s *tok.Scanner) error { return nil }
func (g *shape1089) What() string              { return "shape" }
func (g *shape1089) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1090 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1090) Read(s *tok.Scanner) error { return nil }
func (g *shape1090) What() string              { return "shape" }
func (g *shape1090) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1091 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1091) Read(s *tok.Scanner) error { return nil }
func (g *shape1091) What() string              { return "shape" }
func (g *shape1091) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1092 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1092) Read(s *tok.Scanner) error { return nil }
func (g *shape1092) What() string              { return "shape" }
func (g *shape1092) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1093 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1093) Read(s *tok.Scanner) error { return nil }
func (g *shape1093) What() string              { return "shape" }
func (g *shape1093) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1094 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule
}

func (g *shape1094) Read(s *tok.Scanner) error { return nil }
func (g *shape1094) What() string              { return "shape" }
func (g *shape1094) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1095 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1095) Read(s *tok.Scanner) error { return nil }
func (g *shape1095) What() string              { return "shape" }
func (g *shape1095) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1096 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1096) Read(s *tok.Scanner) error { return nil }
func (g *shape1096) What() string              { return "shape" }
func (g *shape1096) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1097 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1097) Read(s *tok.Scanner) error { return nil }
func (g *shape1097) What() string              { return "shape" }
func (g *shape1097) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1098 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1098) Read(s *tok.Scanner) error { return nil }
func (g *shape1098) What() string              { return "shape" }
func (g *shape1098) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1099 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1099) Read(s *tok.Scanner) error { return nil }
func (g *shape1099) What() string              { return "shape" }
func (g *shape1099) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1100 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1100) Read(s *tok.Scanner) error { return nil }
func (g *shape1100) What() string              { return "shape" }
func (g *shape1100) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1101 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1101) Read(s *tok.Scanner) error { return nil }
func (g *shape1101) What() string              { return "shape" }
func (g *shape1101) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1102 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1102) Read(s *tok.Scanner) error { return nil }
func (g *shape1102) What() string              { return "shape" }
func (g *shape1102) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1103 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1103) Read(s *tok.Scanner) error { return nil }
func (g *shape1103) What() string              { return "shape" }
func (g *shape1103) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1104 struct {
	F0 string   `name:"a0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1104) Read(s *tok.Scanner) error { return nil }
func (g *shape1104) What() string              { return "shape" }
func (g *shape1104) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1105 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1105) Read(s *tok.Scanner) error { return nil }
func (g *shape1105) What() string              { return "shape" }
func (g *shape1105) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1106 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1106) Read(s *tok.Scanner) error { return nil }
func (g *shape1106) What() string              { return "shape" }
func (g *shape1106) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1107 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1107) Read(s *tok.Scanner) error { return nil }
func (g *shape1107) What() string              { return "shape" }
func (g *shape1107) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1108 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1108) Read(s *tok.Scanner) error { return nil }
func (g *shape1108) What() string              { return "shape" }
func (g *shape1108) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1109 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1109) Read(s *tok.Scanner) error { return nil }
func (g *shape1109) What() string              { return "shape" }
func (g *shape1109) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1110 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1110) Read(s *tok.Scanner) error { return nil }
func (g *shape1110) What() string              { return "shape" }
func (g *shape1110) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1111 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1111) Read(s *tok.Scanner) error { return nil }
func (g *shape1111) What() string              { return "shape" }
func (g *shape1111) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1112 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1112) Read(s *tok.Scanner) error { return nil }
func (g *shape1112) What() string              { return "shape" }
func (g *shape1112) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1113 struct {
	F0 string   `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1113) Read(s *tok.Scanner) error { return nil }
func (g *shape1113) What() string              { return "shape" }
func (g *shape1113) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1114 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1114) Read(s *tok.Scanner) error { return nil }
func (g *shape1114) What() string              { return "shape" }
func (g *shape1114) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1115 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1115) Read(s *tok.Scanner) error { return nil }
func (g *shape1115) What() string              { return "shape" }
func (g *shape1115) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1116 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1116) Read(s *tok.Scanner) error { return nil }
func (g *shape1116) What() string              { return "shape" }
func (g *shape1116) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1117 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1117) Read(s *tok.Scanner) error { return nil }
func (g *shape1117) What() string              { return "shape" }
func (g *shape1117) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1118 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1118) Read(s *tok.Scanner) error { return nil }
func (g *shape1118) What() string              { return "shape" }
func (g *shape1118) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1119 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1119) Read(s *tok.Scanner) error { return nil }
func (g *shape1119) What() string              { return "shape" }
func (g *shape1119) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1120 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1120) Read(s *tok.Scanner) error { return nil }
func (g *shape1120) What() string              { return "shape" }
func (g *shape1120) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1121 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1121) Read(s *tok.Scanner) error { return nil }
func (g *shape1121) What() string              { return "shape" }
func (g *shape1121) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1122 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1122) Read(s *tok.Scanner) error { return nil }
func (g *shape1122) What() string              { return "shape" }
func (g *shape1122) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1123 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1123) Read(s *tok.Scanner) error { return nil }
func (g *shape1123) What() string              { return "shape" }
func (g *shape1123) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1124 struct {
	F0 string   `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1124) Read(s *tok.Scanner) error { return nil }
func (g *shape1124) What() string              { return "shape" }
func (g *shape1124) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1125 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1125) Read(s *tok.Scanner) error { return nil }
func (g *shape1125) What() string              { return "shape" }
func (g *shape1125) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1126 struct {
	F0 tok.Rule `name:"a0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1126) Read(s *tok.Scanner) error { return nil }
func (g *shape1126) What() string              { return "shape" }
func (g *shape1126) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1127 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1127) Read(s *tok.Scanner) error { return nil }
func (g *shape1127) What() string              { return "shape" }
func (g *shape1127) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1128 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1128) Read(s *tok.Scanner) error { return nil }
func (g *shape1128) What() string              { return "shape" }
func (g *shape1128) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1129 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1129) Read(s *tok.Scanner) error { return nil }
func (g *shape1129) What() string              { return "shape" }
func (g *shape1129) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1130 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1130) Read(s *tok.Scanner) error { return nil }
func (g *shape1130) What() string              { return "shape" }
func (g *shape1130) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1131 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1131) Read(s *tok.Scanner) error { return nil }
func (g *shape1131) What() string              { return "shape" }
func (g *shape1131) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1132 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1132) Read(s *tok.Scanner) error { return nil }
func (g *shape1132) What() string              { return "shape" }
func (g *shape1132) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1133 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1133) Read(s *tok.Scanner) error { return nil }
func (g *shape1133) What() string              { return "shape" }
func (g *shape1133) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1134 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1134) Read(s *tok.Scanner) error { return nil }
func (g *shape1134) What() string              { return "shape" }
func (g *shape1134) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1135 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1135) Read(s *tok.Scanner) error { return nil }
func (g *shape1135) What() string              { return "shape" }
func (g *shape1135) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1136 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1136) Read(s *tok.Scanner) error { return nil }
func (g *shape1136) What() string              { return "shape" }
func (g *shape1136) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1137 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule
}

func (g *shape1137) Read(s *tok.Scanner) error { return nil }
func (g *shape1137) What() string              { return "shape" }
func (g *shape1137) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1138 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule
	F5 tok.Rule `name:"a5"`
}

func (g *shape1138) Read(s *tok.Scanner) error { return nil }
func (g *shape1138) What() string              { return "shape" }
func (g *shape1138) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1139 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule
}

func (g *shape1139) Read(s *tok.Scanner) error { return nil }
func (g *shape1139) What() string              { return "shape" }
func (g *shape1139) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1140 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"1x"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1140) Read(s *tok.Scanner) error { return nil }
func (g *shape1140) What() string              { return "shape" }
func (g *shape1140) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1141 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1141) Read(s *tok.Scanner) error { return nil }
func (g *shape1141) What() string              { return "shape" }
func (g *shape1141) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1142 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1142) Read(s *tok.Scanner) error { return nil }
func (g *shape1142) What() string              { return "shape" }
func (g *shape1142) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1143 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"2x"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1143) Read(s *tok.Scanner) error { return nil }
func (g *shape1143) What() string              { return "shape" }
func (g *shape1143) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1144 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1144) Read(s *tok.Scanner) error { return nil }
func (g *shape1144) What() string              { return "shape" }
func (g *shape1144) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1145 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"3x"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1145) Read(s *tok.Scanner) error { return nil }
func (g *shape1145) What() string              { return "shape" }
func (g *shape1145) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1146 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1146) Read(s *tok.Scanner) error { return nil }
func (g *shape1146) What() string              { return "shape" }
func (g *shape1146) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1147 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"4x"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1147) Read(s *tok.Scanner) error { return nil }
func (g *shape1147) What() string              { return "shape" }
func (g *shape1147) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1148 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"5x"`
}

func (g *shape1148) Read(s *tok.Scanner) error { return nil }
func (g *shape1148) What() string              { return "shape" }
func (g *shape1148) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1149 struct {
	F0 tok.Rule `json:"z0"`
	f1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1149) Read(s *tok.Scanner) error { return nil }
func (g *shape1149) What() string              { return "shape" }
func (g *shape1149) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1150 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1150) Read(s *tok.Scanner) error { return nil }
func (g *shape1150) What() string              { return "shape" }
func (g *shape1150) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1151 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1151) Read(s *tok.Scanner) error { return nil }
func (g *shape1151) What() string              { return "shape" }
func (g *shape1151) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1152 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	f2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1152) Read(s *tok.Scanner) error { return nil }
func (g *shape1152) What() string              { return "shape" }
func (g *shape1152) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1153 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1153) Read(s *tok.Scanner) error { return nil }
func (g *shape1153) What() string              { return "shape" }
func (g *shape1153) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1154 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	f3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1154) Read(s *tok.Scanner) error { return nil }
func (g *shape1154) What() string              { return "shape" }
func (g *shape1154) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1155 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1155) Read(s *tok.Scanner) error { return nil }
func (g *shape1155) What() string              { return "shape" }
func (g *shape1155) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1156 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	f4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1156) Read(s *tok.Scanner) error { return nil }
func (g *shape1156) What() string              { return "shape" }
func (g *shape1156) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1157 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	f5 tok.Rule `name:"a5"`
}

func (g *shape1157) Read(s *tok.Scanner) error { return nil }
func (g *shape1157) What() string              { return "shape" }
func (g *shape1157) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1158 struct {
	F0 tok.Rule `json:"z0"`
	F1 string   `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1158) Read(s *tok.Scanner) error { return nil }
func (g *shape1158) What() string              { return "shape" }
func (g *shape1158) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1159 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1159) Read(s *tok.Scanner) error { return nil }
func (g *shape1159) What() string              { return "shape" }
func (g *shape1159) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1160 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1160) Read(s *tok.Scanner) error { return nil }
func (g *shape1160) What() string              { return "shape" }
func (g *shape1160) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1161 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 string   `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1161) Read(s *tok.Scanner) error { return nil }
func (g *shape1161) What() string              { return "shape" }
func (g *shape1161) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1162 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1162) Read(s *tok.Scanner) error { return nil }
func (g *shape1162) What() string              { return "shape" }
func (g *shape1162) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1163 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 string   `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1163) Read(s *tok.Scanner) error { return nil }
func (g *shape1163) What() string              { return "shape" }
func (g *shape1163) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1164 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 string   `name:"a5"`
}

func (g *shape1164) Read(s *tok.Scanner) error { return nil }
func (g *shape1164) What() string              { return "shape" }
func (g *shape1164) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1165 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 string   `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1165) Read(s *tok.Scanner) error { return nil }
func (g *shape1165) What() string              { return "shape" }
func (g *shape1165) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1166 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 string   `name:"a5"`
}

func (g *shape1166) Read(s *tok.Scanner) error { return nil }
func (g *shape1166) What() string              { return "shape" }
func (g *shape1166) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1167 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1167) Read(s *tok.Scanner) error { return nil }
func (g *shape1167) What() string              { return "shape" }
func (g *shape1167) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1168 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1168) Read(s *tok.Scanner) error { return nil }
func (g *shape1168) What() string              { return "shape" }
func (g *shape1168) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1169 struct {
	F0 tok.Rule `json:"z0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1169) Read(s *tok.Scanner) error { return nil }
func (g *shape1169) What() string              { return "shape" }
func (g *shape1169) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1170 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1170) Read(s *tok.Scanner) error { return nil }
func (g *shape1170) What() string              { return "shape" }
func (g *shape1170) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1171 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `json:"z1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1171) Read(s *tok.Scanner) error { return nil }
func (g *shape1171) What() string              { return "shape" }
func (g *shape1171) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1172 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1172) Read(s *tok.Scanner) error { return nil }
func (g *shape1172) What() string              { return "shape" }
func (g *shape1172) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1173 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `json:"z2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `name:"a4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1173) Read(s *tok.Scanner) error { return nil }
func (g *shape1173) What() string              { return "shape" }
func (g *shape1173) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1174 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `json:"z3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `name:"a5"`
}

func (g *shape1174) Read(s *tok.Scanner) error { return nil }
func (g *shape1174) What() string              { return "shape" }
func (g *shape1174) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1175 struct {
	F0 tok.Rule `name:"a0"`
	F1 tok.Rule `name:"a1"`
	F2 tok.Rule `name:"a2"`
	F3 tok.Rule `name:"a3"`
	F4 tok.Rule `json:"z4"`
	F5 tok.Rule `json:"z5"`
}

func (g *shape1175) Read(s *tok.Scanner) error { return nil }
func (g *shape1175) What() string              { return "shape" }
func (g *shape1175) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1176 struct {
	F0 tok.Rule `name:"a\x00b"`
}

func (g *shape1176) Read(s *tok.Scanner) error { return nil }
func (g *shape1176) What() string              { return "shape" }
func (g *shape1176) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1177 struct {
	F0 tok.Rule `name:"a\x01b"`
}

func (g *shape1177) Read(s *tok.Scanner) error { return nil }
func (g *shape1177) What() string              { return "shape" }
func (g *shape1177) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1178 struct {
	F0 tok.Rule `name:"a\x02b"`
}

func (g *shape1178) Read(s *tok.Scanner) error { return nil }
func (g *shape1178) What() string              { return "shape" }
func (g *shape1178) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1179 struct {
	F0 tok.Rule `name:"a\x03b"`
}

func (g *shape1179) Read(s *tok.Scanner) error { return nil }
func (g *shape1179) What() string              { return "shape" }
func (g *shape1179) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1180 struct {
	F0 tok.Rule `name:"a\x04b"`
}

func (g *shape1180) Read(s *tok.Scanner) error { return nil }
func (g *shape1180) What() string              { return "shape" }
func (g *shape1180) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1181 struct {
	F0 tok.Rule `name:"a\x05b"`
}

func (g *shape1181) Read(s *tok.Scanner) error { return nil }
func (g *shape1181) What() string              { return "shape" }
func (g *shape1181) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1182 struct {
	F0 tok.Rule `name:"a\x06b"`
}

func (g *shape1182) Read(s *tok.Scanner) error { return nil }
func (g *shape1182) What() string              { return "shape" }
func (g *shape1182) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1183 struct {
	F0 tok.Rule `name:"a\x07b"`
}

func (g *shape1183) Read(s *tok.Scanner) error { return nil }
func (g *shape1183) What() string              { return "shape" }
func (g *shape1183) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1184 struct {
	F0 tok.Rule `name:"a\x08b"`
}

func (g *shape1184) Read(s *tok.Scanner) error { return nil }
func (g *shape1184) What() string              { return "shape" }
func (g *shape1184) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1185 struct {
	F0 tok.Rule `name:"a\x09b"`
}

func (g *shape1185) Read(s *tok.Scanner) error { return nil }
func (g *shape1185) What() string              { return "shape" }
func (g *shape1185) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1186 struct {
	F0 tok.Rule `name:"a\x0ab"`
}

func (g *shape1186) Read(s *tok.Scanner) error { return nil }
func (g *shape1186) What() string              { return "shape" }
func (g *shape1186) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1187 struct {
	F0 tok.Rule `name:"a\x0bb"`
}

func (g *shape1187) Read(s *tok.Scanner) error { return nil }
func (g *shape1187) What() string              { return "shape" }
func (g *shape1187) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1188 struct {
	F0 tok.Rule `name:"a\x0cb"`
}

func (g *shape1188) Read(s *tok.Scanner) error { return nil }
func (g *shape1188) What() string              { return "shape" }
func (g *shape1188) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1189 struct {
	F0 tok.Rule `name:"a\x0db"`
}

func (g *shape1189) Read(s *tok.Scanner) error { return nil }
func (g *shape1189) What() string              { return "shape" }
func (g *shape1189) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1190 struct {
	F0 tok.Rule `name:"a\x0eb"`
}

func (g *shape1190) Read(s *tok.Scanner) error { return nil }
func (g *shape1190) What() string              { return "shape" }
func (g *shape1190) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1191 struct {
	F0 tok.Rule `name:"a\x0fb"`
}

func (g *shape1191) Read(s *tok.Scanner) error { return nil }
func (g *shape1191) What() string              { return "shape" }
func (g *shape1191) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1192 struct {
	F0 tok.Rule `name:"a\x10b"`
}

func (g *shape1192) Read(s *tok.Scanner) error { return nil }
func (g *shape1192) What() string              { return "shape" }
func (g *shape1192) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1193 struct {
	F0 tok.Rule `name:"a\x11b"`
}

func (g *shape1193) Read(s *tok.Scanner) error { return nil }
func (g *shape1193) What() string              { return "shape" }
func (g *shape1193) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1194 struct {
	F0 tok.Rule `name:"a\x12b"`
}

func (g *shape1194) Read(s *tok.Scanner) error { return nil }
func (g *shape1194) What() string              { return "shape" }
func (g *shape1194) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1195 struct {
	F0 tok.Rule `name:"a\x13b"`
}

func (g *shape1195) Read(s *tok.Scanner) error { return nil }
func (g *shape1195) What() string              { return "shape" }
func (g *shape1195) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1196 struct {
	F0 tok.Rule `name:"a\x14b"`
}

func (g *shape1196) Read(s *tok.Scanner) error { return nil }
func (g *shape1196) What() string              { return "shape" }
func (g *shape1196) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1197 struct {
	F0 tok.Rule `name:"a\x15b"`
}

func (g *shape1197) Read(s *tok.Scanner) error { return nil }
func (g *shape1197) What() string              { return "shape" }
func (g *shape1197) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1198 struct {
	F0 tok.Rule `name:"a\x16b"`
}

func (g *shape1198) Read(s *tok.Scanner) error { return nil }
func (g *shape1198) What() string              { return "shape" }
func (g *shape1198) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1199 struct {
	F0 tok.Rule `name:"a\x17b"`
}

func (g *shape1199) Read(s *tok.Scanner) error { return nil }
func (g *shape1199) What() string              { return "shape" }
func (g *shape1199) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1200 struct {
	F0 tok.Rule `name:"a\x18b"`
}

func (g *shape1200) Read(s *tok.Scanner) error { return nil }
func (g *shape1200) What() string              { return "shape" }
func (g *shape1200) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1201 struct {
	F0 tok.Rule `name:"a\x19b"`
}

func (g *shape1201) Read(s *tok.Scanner) error { return nil }
func (g *shape1201) What() string              { return "shape" }
func (g *shape1201) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1202 struct {
	F0 tok.Rule `name:"a\x1ab"`
}

func (g *shape1202) Read(s *tok.Scanner) error { return nil }
func (g *shape1202) What() string              { return "shape" }
func (g *shape1202) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1203 struct {
	F0 tok.Rule `name:"a\x1bb"`
}

func (g *shape1203) Read(s *tok.Scanner) error { return nil }
func (g *shape1203) What() string              { return "shape" }
func (g *shape1203) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1204 struct {
	F0 tok.Rule `name:"a\x1cb"`
}

func (g *shape1204) Read(s *tok.Scanner) error { return nil }
func (g *shape1204) What() string              { return "shape" }
func (g *shape1204) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1205 struct {
	F0 tok.Rule `name:"a\x1db"`
}

func (g *shape1205) Read(s *tok.Scanner) error { return nil }
func (g *shape1205) What() string              { return "shape" }
func (g *shape1205) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1206 struct {
	F0 tok.Rule `name:"a\x1eb"`
}

func (g *shape1206) Read(s *tok.Scanner) error { return nil }
func (g *shape1206) What() string              { return "shape" }
func (g *shape1206) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1207 struct {
	F0 tok.Rule `name:"a\x1fb"`
}

func (g *shape1207) Read(s *tok.Scanner) error { return nil }
func (g *shape1207) What() string              { return "shape" }
func (g *shape1207) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1208 struct {
	F0 tok.Rule `name:"a\x20b"`
}

func (g *shape1208) Read(s *tok.Scanner) error { return nil }
func (g *shape1208) What() string              { return "shape" }
func (g *shape1208) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1209 struct {
	F0 tok.Rule `name:"\x20b"`
}

func (g *shape1209) Read(s *tok.Scanner) error { return nil }
func (g *shape1209) What() string              { return "shape" }
func (g *shape1209) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1210 struct {
	F0 tok.Rule `name:"a\x20"`
}

func (g *shape1210) Read(s *tok.Scanner) error { return nil }
func (g *shape1210) What() string              { return "shape" }
func (g *shape1210) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1211 struct {
	F0 tok.Rule `name:"a\x21b"`
}

func (g *shape1211) Read(s *tok.Scanner) error { return nil }
func (g *shape1211) What() string              { return "shape" }
func (g *shape1211) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1212 struct {
	F0 tok.Rule `name:"\x21b"`
}

func (g *shape1212) Read(s *tok.Scanner) error { return nil }
func (g *shape1212) What() string              { return "shape" }
func (g *shape1212) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1213 struct {
	F0 tok.Rule `name:"a\x21"`
}

func (g *shape1213) Read(s *tok.Scanner) error { return nil }
func (g *shape1213) What() string              { return "shape" }
func (g *shape1213) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1214 struct {
	F0 tok.Rule `name:"a\x22b"`
}

func (g *shape1214) Read(s *tok.Scanner) error { return nil }
func (g *shape1214) What() string              { return "shape" }
func (g *shape1214) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1215 struct {
	F0 tok.Rule `name:"\x22b"`
}

func (g *shape1215) Read(s *tok.Scanner) error { return nil }
func (g *shape1215) What() string              { return "shape" }
func (g *shape1215) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1216 struct {
	F0 tok.Rule `name:"a\x22"`
}

func (g *shape1216) Read(s *tok.Scanner) error { return nil }
func (g *shape1216) What() string              { return "shape" }
func (g *shape1216) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1217 struct {
	F0 tok.Rule `name:"a\x23b"`
}

func (g *shape1217) Read(s *tok.Scanner) error { return nil }
func (g *shape1217) What() string              { return "shape" }
func (g *shape1217) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1218 struct {
	F0 tok.Rule `name:"\x23b"`
}

func (g *shape1218) Read(s *tok.Scanner) error { return nil }
func (g *shape1218) What() string              { return "shape" }
func (g *shape1218) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1219 struct {
	F0 tok.Rule `name:"a\x23"`
}

func (g *shape1219) Read(s *tok.Scanner) error { return nil }
func (g *shape1219) What() string              { return "shape" }
func (g *shape1219) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1220 struct {
	F0 tok.Rule `name:"a\x24b"`
}

func (g *shape1220) Read(s *tok.Scanner) error { return nil }
func (g *shape1220) What() string              { return "shape" }
func (g *shape1220) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1221 struct {
	F0 tok.Rule `name:"\x24b"`
}

func (g *shape1221) Read(s *tok.Scanner) error { return nil }
func (g *shape1221) What() string              { return "shape" }
func (g *shape1221) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1222 struct {
	F0 tok.Rule `name:"a\x24"`
}

func (g *shape1222) Read(s *tok.Scanner) error { return nil }
func (g *shape1222) What() string              { return "shape" }
func (g *shape1222) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1223 struct {
	F0 tok.Rule `name:"a\x25b"`
}

func (g *shape1223) Read(s *tok.Scanner) error { return nil }
func (g *shape1223) What() string              { return "shape" }
func (g *shape1223) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1224 struct {
	F0 tok.Rule `name:"\x25b"`
}

func (g *shape1224) Read(s *tok.Scanner) error { return nil }
func (g *shape1224) What() string              { return "shape" }
func (g *shape1224) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1225 struct {
	F0 tok.Rule `name:"a\x25"`
}

func (g *shape1225) Read(s *tok.Scanner) error { return nil }
func (g *shape1225) What() string              { return "shape" }
func (g *shape1225) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1226 struct {
	F0 tok.Rule `name:"a\x26b"`
}

func (g *shape1226) Read(s *tok.Scanner) error { return nil }
func (g *shape1226) What() string              { return "shape" }
func (g *shape1226) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1227 struct {
	F0 tok.Rule `name:"\x26b"`
}

func (g *shape1227) Read(s *tok.Scanner) error { return nil }
func (g *shape1227) What() string              { return "shape" }
func (g *shape1227) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1228 struct {
	F0 tok.Rule `name:"a\x26"`
}

func (g *shape1228) Read(s *tok.Scanner) error { return nil }
func (g *shape1228) What() string              { return "shape" }
func (g *shape1228) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1229 struct {
	F0 tok.Rule `name:"a\x27b"`
}

func (g *shape1229) Read(s *tok.Scanner) error { return nil }
func (g *shape1229) What() string              { return "shape" }
func (g *shape1229) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1230 struct {
	F0 tok.Rule `name:"\x27b"`
}

func (g *shape1230) Read(s *tok.Scanner) error { return nil }
func (g *shape1230) What() string              { return "shape" }
func (g *shape1230) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1231 struct {
	F0 tok.Rule `name:"a\x27"`
}

func (g *shape1231) Read(s *tok.Scanner) error { return nil }
func (g *shape1231) What() string              { return "shape" }
func (g *shape1231) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1232 struct {
	F0 tok.Rule `name:"a\x28b"`
}

func (g *shape1232) Read(s *tok.Scanner) error { return nil }
func (g *shape1232) What() string              { return "shape" }
func (g *shape1232) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1233 struct {
	F0 tok.Rule `name:"\x28b"`
}

func (g *shape1233) Read(s *tok.Scanner) error { return nil }
func (g *shape1233) What() string              { return "shape" }
func (g *shape1233) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1234 struct {
	F0 tok.Rule `name:"a\x28"`
}

func (g *shape1234) Read(s *tok.Scanner) error { return nil }
func (g *shape1234) What() string              { return "shape" }
func (g *shape1234) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1235 struct {
	F0 tok.Rule `name:"a\x29b"`
}

func (g *shape1235) Read(s *tok.Scanner) error { return nil }
func (g *shape1235) What() string              { return "shape" }
func (g *shape1235) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1236 struct {
	F0 tok.Rule `name:"\x29b"`
}

func (g *shape1236) Read(s *tok.Scanner) error { return nil }
func (g *shape1236) What() string              { return "shape" }
func (g *shape1236) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1237 struct {
	F0 tok.Rule `name:"a\x29"`
}

func (g *shape1237) Read(s *tok.Scanner) error { return nil }
func (g *shape1237) What() string              { return "shape" }
func (g *shape1237) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1238 struct {
	F0 tok.Rule `name:"a\x2ab"`
}

func (g *shape1238) Read(s *tok.Scanner) error { return nil }
func (g *shape1238) What() string              { return "shape" }
func (g *shape1238) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1239 struct {
	F0 tok.Rule `name:"\x2ab"`
}

func (g *shape1239) Read(s *tok.Scanner) error { return nil }
func (g *shape1239) What() string              { return "shape" }
func (g *shape1239) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1240 struct {
	F0 tok.Rule `name:"a\x2a"`
}

func (g *shape1240) Read(s *tok.Scanner) error { return nil }
func (g *shape1240) What() string              { return "shape" }
func (g *shape1240) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1241 struct {
	F0 tok.Rule `name:"a\x2bb"`
}

func (g *shape1241) Read(s *tok.Scanner) error { return nil }
func (g *shape1241) What() string              { return "shape" }
func (g *shape1241) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1242 struct {
	F0 tok.Rule `name:"\x2bb"`
}

func (g *shape1242) Read(s *tok.Scanner) error { return nil }
func (g *shape1242) What() string              { return "shape" }
func (g *shape1242) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1243 struct {
	F0 tok.Rule `name:"a\x2b"`
}

func (g *shape1243) Read(s *tok.Scanner) error { return nil }
func (g *shape1243) What() string              { return "shape" }
func (g *shape1243) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1244 struct {
	F0 tok.Rule `name:"a\x2cb"`
}

func (g *shape1244) Read(s *tok.Scanner) error { return nil }
func (g *shape1244) What() string              { return "shape" }
func (g *shape1244) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1245 struct {
	F0 tok.Rule `name:"\x2cb"`
}

func (g *shape1245) Read(s *tok.Scanner) error { return nil }
func (g *shape1245) What() string              { return "shape" }
func (g *shape1245) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1246 struct {
	F0 tok.Rule `name:"a\x2c"`
}

func (g *shape1246) Read(s *tok.Scanner) error { return nil }
func (g *shape1246) What() string              { return "shape" }
func (g *shape1246) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1247 struct {
	F0 tok.Rule `name:"a\x2db"`
}

func (g *shape1247) Read(s *tok.Scanner) error { return nil }
func (g *shape1247) What() string              { return "shape" }
func (g *shape1247) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1248 struct {
	F0 tok.Rule `name:"\x2db"`
}

func (g *shape1248) Read(s *tok.Scanner) error { return nil }
func (g *shape1248) What() string              { return "shape" }
func (g *shape1248) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1249 struct {
	F0 tok.Rule `name:"a\x2d"`
}

func (g *shape1249) Read(s *tok.Scanner) error { return nil }
func (g *shape1249) What() string              { return "shape" }
func (g *shape1249) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1250 struct {
	F0 tok.Rule `name:"a\x2eb"`
}

func (g *shape1250) Read(s *tok.Scanner) error { return nil }
func (g *shape1250) What() string              { return "shape" }
func (g *shape1250) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1251 struct {
	F0 tok.Rule `name:"\x2eb"`
}

func (g *shape1251) Read(s *tok.Scanner) error { return nil }
func (g *shape1251) What() string              { return "shape" }
func (g *shape1251) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1252 struct {
	F0 tok.Rule `name:"a\x2e"`
}

func (g *shape1252) Read(s *tok.Scanner) error { return nil }
func (g *shape1252) What() string              { return "shape" }
func (g *shape1252) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1253 struct {
	F0 tok.Rule `name:"a\x2fb"`
}

func (g *shape1253) Read(s *tok.Scanner) error { return nil }
func (g *shape1253) What() string              { return "shape" }
func (g *shape1253) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1254 struct {
	F0 tok.Rule `name:"\x2fb"`
}

func (g *shape1254) Read(s *tok.Scanner) error { return nil }
func (g *shape1254) What() string              { return "shape" }
func (g *shape1254) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1255 struct {
	F0 tok.Rule `name:"a\x2f"`
}

func (g *shape1255) Read(s *tok.Scanner) error { return nil }
func (g *shape1255) What() string              { return "shape" }
func (g *shape1255) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1256 struct {
	F0 tok.Rule `name:"a\x30b"`
}

func (g *shape1256) Read(s *tok.Scanner) error { return nil }
func (g *shape1256) What() string              { return "shape" }
func (g *shape1256) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1257 struct {
	F0 tok.Rule `name:"\x30b"`
}

func (g *shape1257) Read(s *tok.Scanner) error { return nil }
func (g *shape1257) What() string              { return "shape" }
func (g *shape1257) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1258 struct {
	F0 tok.Rule `name:"a\x30"`
}

func (g *shape1258) Read(s *tok.Scanner) error { return nil }
func (g *shape1258) What() string              { return "shape" }
func (g *shape1258) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1259 struct {
	F0 tok.Rule `name:"a\x31b"`
}

func (g *shape1259) Read(s *tok.Scanner) error { return nil }
func (g *shape1259) What() string              { return "shape" }
func (g *shape1259) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1260 struct {
	F0 tok.Rule `name:"\x31b"`
}

func (g *shape1260) Read(s *tok.Scanner) error { return nil }
func (g *shape1260) What() string              { return "shape" }
func (g *shape1260) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1261 struct {
	F0 tok.Rule `name:"a\x31"`
}

func (g *shape1261) Read(s *tok.Scanner) error { return nil }
func (g *shape1261) What() string              { return "shape" }
func (g *shape1261) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1262 struct {
	F0 tok.Rule `name:"a\x32b"`
}

func (g *shape1262) Read(s *tok.Scanner) error { return nil }
func (g *shape1262) What() string              { return "shape" }
func (g *shape1262) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1263 struct {
	F0 tok.Rule `name:"\x32b"`
}

func (g *shape1263) Read(s *tok.Scanner) error { return nil }
func (g *shape1263) What() string              { return "shape" }
func (g *shape1263) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1264 struct {
	F0 tok.Rule `name:"a\x32"`
}

func (g *shape1264) Read(s *tok.Scanner) error { return nil }
func (g *shape1264) What() string              { return "shape" }
func (g *shape1264) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1265 struct {
	F0 tok.Rule `name:"a\x33b"`
}

func (g *shape1265) Read(s *tok.Scanner) error { return nil }
func (g *shape1265) What() string              { return "shape" }
func (g *shape1265) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1266 struct {
	F0 tok.Rule `name:"\x33b"`
}

func (g *shape1266) Read(s *tok.Scanner) error { return nil }
func (g *shape1266) What() string              { return "shape" }
func (g *shape1266) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1267 struct {
	F0 tok.Rule `name:"a\x33"`
}

func (g *shape1267) Read(s *tok.Scanner) error { return nil }
func (g *shape1267) What() string              { return "shape" }
func (g *shape1267) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1268 struct {
	F0 tok.Rule `name:"a\x34b"`
}

func (g *shape1268) Read(s *tok.Scanner) error { return nil }
func (g *shape1268) What() string              { return "shape" }
func (g *shape1268) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1269 struct {
	F0 tok.Rule `name:"\x34b"`
}

func (g *shape1269) Read(s *tok.Scanner) error { return nil }
func (g *shape1269) What() string              { return "shape" }
func (g *shape1269) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1270 struct {
	F0 tok.Rule `name:"a\x34"`
}

func (g *shape1270) Read(s *tok.Scanner) error { return nil }
func (g *shape1270) What() string              { return "shape" }
func (g *shape1270) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1271 struct {
	F0 tok.Rule `name:"a\x35b"`
}

func (g *shape1271) Read(s *tok.Scanner) error { return nil }
func (g *shape1271) What() string              { return "shape" }
func (g *shape1271) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1272 struct {
	F0 tok.Rule `name:"\x35b"`
}

func (g *shape1272) Read(s *tok.Scanner) error { return nil }
func (g *shape1272) What() string              { return "shape" }
func (g *shape1272) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1273 struct {
	F0 tok.Rule `name:"a\x35"`
}

func (g *shape1273) Read(s *tok.Scanner) error { return nil }
func (g *shape1273) What() string              { return "shape" }
func (g *shape1273) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1274 struct {
	F0 tok.Rule `name:"a\x36b"`
}

func (g *shape1274) Read(s *tok.Scanner) error { return nil }
func (g *shape1274) What() string              { return "shape" }
func (g *shape1274) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1275 struct {
	F0 tok.Rule `name:"\x36b"`
}

func (g *shape1275) Read(s *tok.Scanner) error { return nil }
func (g *shape1275) What() string              { return "shape" }
func (g *shape1275) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1276 struct {
	F0 tok.Rule `name:"a\x36"`
}

func (g *shape1276) Read(s *tok.Scanner) error { return nil }
func (g *shape1276) What() string              { return "shape" }
func (g *shape1276) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1277 struct {
	F0 tok.Rule `name:"a\x37b"`
}

func (g *shape1277) Read(s *tok.Scanner) error { return nil }
func (g *shape1277) What() string              { return "shape" }
func (g *shape1277) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1278 struct {
	F0 tok.Rule `name:"\x37b"`
}

func (g *shape1278) Read(s *tok.Scanner) error { return nil }
func (g *shape1278) What() string              { return "shape" }
func (g *shape1278) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1279 struct {
	F0 tok.Rule `name:"a\x37"`
}

func (g *shape1279) Read(s *tok.Scanner) error { return nil }
func (g *shape1279) What() string              { return "shape" }
func (g *shape1279) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1280 struct {
	F0 tok.Rule `name:"a\x38b"`
}

func (g *shape1280) Read(s *tok.Scanner) error { return nil }
func (g *shape1280) What() string              { return "shape" }
func (g *shape1280) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1281 struct {
	F0 tok.Rule `name:"\x38b"`
}

func (g *shape1281) Read(s *tok.Scanner) error { return nil }
func (g *shape1281) What() string              { return "shape" }
func (g *shape1281) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1282 struct {
	F0 tok.Rule `name:"a\x38"`
}

func (g *shape1282) Read(s *tok.Scanner) error { return nil }
func (g *shape1282) What() string              { return "shape" }
func (g *shape1282) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1283 struct {
	F0 tok.Rule `name:"a\x39b"`
}

func (g *shape1283) Read(s *tok.Scanner) error { return nil }
func (g *shape1283) What() string              { return "shape" }
func (g *shape1283) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1284 struct {
	F0 tok.Rule `name:"\x39b"`
}

func (g *shape1284) Read(s *tok.Scanner) error { return nil }
func (g *shape1284) What() string              { return "shape" }
func (g *shape1284) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1285 struct {
	F0 tok.Rule `name:"a\x39"`
}

func (g *shape1285) Read(s *tok.Scanner) error { return nil }
func (g *shape1285) What() string              { return "shape" }
func (g *shape1285) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1286 struct {
	F0 tok.Rule `name:"a\x3ab"`
}

func (g *shape1286) Read(s *tok.Scanner) error { return nil }
func (g *shape1286) What() string              { return "shape" }
func (g *shape1286) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1287 struct {
	F0 tok.Rule `name:"\x3ab"`
}

func (g *shape1287) Read(s *tok.Scanner) error { return nil }
func (g *shape1287) What() string              { return "shape" }
func (g *shape1287) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1288 struct {
	F0 tok.Rule `name:"a\x3a"`
}

func (g *shape1288) Read(s *tok.Scanner) error { return nil }
func (g *shape1288) What() string              { return "shape" }
func (g *shape1288) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1289 struct {
	F0 tok.Rule `name:"a\x3bb"`
}

func (g *shape1289) Read(s *tok.Scanner) error { return nil }
func (g *shape1289) What() string              { return "shape" }
func (g *shape1289) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1290 struct {
	F0 tok.Rule `name:"\x3bb"`
}

func (g *shape1290) Read(s *tok.Scanner) error { return nil }
func (g *shape1290) What() string              { return "shape" }
func (g *shape1290) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1291 struct {
	F0 tok.Rule `name:"a\x3b"`
}

func (g *shape1291) Read(s *tok.Scanner) error { return nil }
func (g *shape1291) What() string              { return "shape" }
func (g *shape1291) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1292 struct {
	F0 tok.Rule `name:"a\x3cb"`
}

func (g *shape1292) Read(s *tok.Scanner) error { return nil }
func (g *shape1292) What() string              { return "shape" }
func (g *shape1292) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1293 struct {
	F0 tok.Rule `name:"\x3cb"`
}

func (g *shape1293) Read(s *tok.Scanner) error { return nil }
func (g *shape1293) What() string              { return "shape" }
func (g *shape1293) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1294 struct {
	F0 tok.Rule `name:"a\x3c"`
}

func (g *shape1294) Read(s *tok.Scanner) error { return nil }
func (g *shape1294) What() string              { return "shape" }
func (g *shape1294) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1295 struct {
	F0 tok.Rule `name:"a\x3db"`
}

func (g *shape1295) Read(s *tok.Scanner) error { return nil }
func (g *shape1295) What() string              { return "shape" }
func (g *shape1295) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1296 struct {
	F0 tok.Rule `name:"\x3db"`
}

func (g *shape1296) Read(s *tok.Scanner) error { return nil }
func (g *shape1296) What() string              { return "shape" }
func (g *shape1296) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1297 struct {
	F0 tok.Rule `name:"a\x3d"`
}

func (g *shape1297) Read(s *tok.Scanner) error { return nil }
func (g *shape1297) What() string              { return "shape" }
func (g *shape1297) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1298 struct {
	F0 tok.Rule `name:"a\x3eb"`
}

func (g *shape1298) Read(s *tok.Scanner) error { return nil }
func (g *shape1298) What() string              { return "shape" }
func (g *shape1298) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1299 struct {
	F0 tok.Rule `name:"\x3eb"`
}

func (g *shape1299) Read(s *tok.Scanner) error { return nil }
func (g *shape1299) What() string              { return "shape" }
func (g *shape1299) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1300 struct {
	F0 tok.Rule `name:"a\x3e"`
}

func (g *shape1300) Read(s *tok.Scanner) error { return nil }
func (g *shape1300) What() string              { return "shape" }
func (g *shape1300) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1301 struct {
	F0 tok.Rule `name:"a\x3fb"`
}

func (g *shape1301) Read(s *tok.Scanner) error { return nil }
func (g *shape1301) What() string              { return "shape" }
func (g *shape1301) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1302 struct {
	F0 tok.Rule `name:"\x3fb"`
}

func (g *shape1302) Read(s *tok.Scanner) error { return nil }
func (g *shape1302) What() string              { return "shape" }
func (g *shape1302) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1303 struct {
	F0 tok.Rule `name:"a\x3f"`
}

func (g *shape1303) Read(s *tok.Scanner) error { return nil }
func (g *shape1303) What() string              { return "shape" }
func (g *shape1303) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1304 struct {
	F0 tok.Rule `name:"a\x40b"`
}

func (g *shape1304) Read(s *tok.Scanner) error { return nil }
func (g *shape1304) What() string              { return "shape" }
func (g *shape1304) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1305 struct {
	F0 tok.Rule `name:"\x40b"`
}

func (g *shape1305) Read(s *tok.Scanner) error { return nil }
func (g *shape1305) What() string              { return "shape" }
func (g *shape1305) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1306 struct {
	F0 tok.Rule `name:"a\x40"`
}

func (g *shape1306) Read(s *tok.Scanner) error { return nil }
func (g *shape1306) What() string              { return "shape" }
func (g *shape1306) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1307 struct {
	F0 tok.Rule `name:"a\x41b"`
}

func (g *shape1307) Read(s *tok.Scanner) error { return nil }
func (g *shape1307) What() string              { return "shape" }
func (g *shape1307) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1308 struct {
	F0 tok.Rule `name:"\x41b"`
}

func (g *shape1308) Read(s *tok.Scanner) error { return nil }
func (g *shape1308) What() string              { return "shape" }
func (g *shape1308) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1309 struct {
	F0 tok.Rule `name:"a\x41"`
}

func (g *shape1309) Read(s *tok.Scanner) error { return nil }
func (g *shape1309) What() string              { return "shape" }
func (g *shape1309) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1310 struct {
	F0 tok.Rule `name:"a\x42b"`
}

func (g *shape1310) Read(s *tok.Scanner) error { return nil }
func (g *shape1310) What() string              { return "shape" }
func (g *shape1310) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1311 struct {
	F0 tok.Rule `name:"\x42b"`
}

func (g *shape1311) Read(s *tok.Scanner) error { return nil }
func (g *shape1311) What() string              { return "shape" }
func (g *shape1311) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1312 struct {
	F0 tok.Rule `name:"a\x42"`
}

func (g *shape1312) Read(s *tok.Scanner) error { return nil }
func (g *shape1312) What() string              { return "shape" }
func (g *shape1312) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1313 struct {
	F0 tok.Rule `name:"a\x43b"`
}

func (g *shape1313) Read(s *tok.Scanner) error { return nil }
func (g *shape1313) What() string              { return "shape" }
func (g *shape1313) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1314 struct {
	F0 tok.Rule `name:"\x43b"`
}

func (g *shape1314) Read(s *tok.Scanner) error { return nil }
func (g *shape1314) What() string              { return "shape" }
func (g *shape1314) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1315 struct {
	F0 tok.Rule `name:"a\x43"`
}

func (g *shape1315) Read(s *tok.Scanner) error { return nil }
func (g *shape1315) What() string              { return "shape" }
func (g *shape1315) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1316 struct {
	F0 tok.Rule `name:"a\x44b"`
}

func (g *shape1316) Read(s *tok.Scanner) error { return nil }
func (g *shape1316) What() string              { return "shape" }
func (g *shape1316) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1317 struct {
	F0 tok.Rule `name:"\x44b"`
}

func (g *shape1317) Read(s *tok.Scanner) error { return nil }
func (g *shape1317) What() string              { return "shape" }
func (g *shape1317) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1318 struct {
	F0 tok.Rule `name:"a\x44"`
}

func (g *shape1318) Read(s *tok.Scanner) error { return nil }
func (g *shape1318) What() string              { return "shape" }
func (g *shape1318) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1319 struct {
	F0 tok.Rule `name:"a\x45b"`
}

func (g *shape1319) Read(s *tok.Scanner) error { return nil }
func (g *shape1319) What() string              { return "shape" }
func (g *shape1319) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1320 struct {
	F0 tok.Rule `name:"\x45b"`
}

func (g *shape1320) Read(s *tok.Scanner) error { return nil }
func (g *shape1320) What() string              { return "shape" }
func (g *shape1320) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1321 struct {
	F0 tok.Rule `name:"a\x45"`
}

func (g *shape1321) Read(s *tok.Scanner) error { return nil }
func (g *shape1321) What() string              { return "shape" }
func (g *shape1321) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1322 struct {
	F0 tok.Rule `name:"a\x46b"`
}

func (g *shape1322) Read(s *tok.Scanner) error { return nil }
func (g *shape1322) What() string              { return "shape" }
func (g *shape1322) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1323 struct {
	F0 tok.Rule `name:"\x46b"`
}

func (g *shape1323) Read(s *tok.Scanner) error { return nil }
func (g *shape1323) What() string              { return "shape" }
func (g *shape1323) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1324 struct {
	F0 tok.Rule `name:"a\x46"`
}

func (g *shape1324) Read(s *tok.Scanner) error { return nil }
func (g *shape1324) What() string              { return "shape" }
func (g *shape1324) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1325 struct {
	F0 tok.Rule `name:"a\x47b"`
}

func (g *shape1325) Read(s *tok.Scanner) error { return nil }
func (g *shape1325) What() string              { return "shape" }
func (g *shape1325) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1326 struct {
	F0 tok.Rule `name:"\x47b"`
}

func (g *shape1326) Read(s *tok.Scanner) error { return nil }
func (g *shape1326) What() string              { return "shape" }
func (g *shape1326) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1327 struct {
	F0 tok.Rule `name:"a\x47"`
}

func (g *shape1327) Read(s *tok.Scanner) error { return nil }
func (g *shape1327) What() string              { return "shape" }
func (g *shape1327) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1328 struct {
	F0 tok.Rule `name:"a\x48b"`
}

func (g *shape1328) Read(s *tok.Scanner) error { return nil }
func (g *shape1328) What() string              { return "shape" }
func (g *shape1328) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1329 struct {
	F0 tok.Rule `name:"\x48b"`
}

func (g *shape1329) Read(s *tok.Scanner) error { return nil }
func (g *shape1329) What() string              { return "shape" }
func (g *shape1329) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1330 struct {
	F0 tok.Rule `name:"a\x48"`
}

func (g *shape1330) Read(s *tok.Scanner) error { return nil }
func (g *shape1330) What() string              { return "shape" }
func (g *shape1330) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1331 struct {
	F0 tok.Rule `name:"a\x49b"`
}

func (g *shape1331) Read(s *tok.Scanner) error { return nil }
func (g *shape1331) What() string              { return "shape" }
func (g *shape1331) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1332 struct {
	F0 tok.Rule `name:"\x49b"`
}

func (g *shape1332) Read(s *tok.Scanner) error { return nil }
func (g *shape1332) What() string              { return "shape" }
func (g *shape1332) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1333 struct {
	F0 tok.Rule `name:"a\x49"`
}

func (g *shape1333) Read(s *tok.Scanner) error { return nil }
func (g *shape1333) What() string              { return "shape" }
func (g *shape1333) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1334 struct {
	F0 tok.Rule `name:"a\x4ab"`
}

func (g *shape1334) Read(s *tok.Scanner) error { return nil }
func (g *shape1334) What() string              { return "shape" }
func (g *shape1334) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1335 struct {
	F0 tok.Rule `name:"\x4ab"`
}

func (g *shape1335) Read(s *tok.Scanner) error { return nil }
func (g *shape1335) What() string              { return "shape" }
func (g *shape1335) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1336 struct {
	F0 tok.Rule `name:"a\x4a"`
}

func (g *shape1336) Read(s *tok.Scanner) error { return nil }
func (g *shape1336) What() string              { return "shape" }
func (g *shape1336) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1337 struct {
	F0 tok.Rule `name:"a\x4bb"`
}

func (g *shape1337) Read(s *tok.Scanner) error { return nil }
func (g *shape1337) What() string              { return "shape" }
func (g *shape1337) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1338 struct {
	F0 tok.Rule `name:"\x4bb"`
}

func (g *shape1338) Read(s *tok.Scanner) error { return nil }
func (g *shape1338) What() string              { return "shape" }
func (g *shape1338) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1339 struct {
	F0 tok.Rule `name:"a\x4b"`
}

func (g *shape1339) Read(s *tok.Scanner) error { return nil }
func (g *shape1339) What() string              { return "shape" }
func (g *shape1339) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1340 struct {
	F0 tok.Rule `name:"a\x4cb"`
}

func (g *shape1340) Read(s *tok.Scanner) error { return nil }
func (g *shape1340) What() string              { return "shape" }
func (g *shape1340) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1341 struct {
	F0 tok.Rule `name:"\x4cb"`
}

func (g *shape1341) Read(s *tok.Scanner) error { return nil }
func (g *shape1341) What() string              { return "shape" }
func (g *shape1341) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1342 struct {
	F0 tok.Rule `name:"a\x4c"`
}

func (g *shape1342) Read(s *tok.Scanner) error { return nil }
func (g *shape1342) What() string              { return "shape" }
func (g *shape1342) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1343 struct {
	F0 tok.Rule `name:"a\x4db"`
}

func (g *shape1343) Read(s *tok.Scanner) error { return nil }
func (g *shape1343) What() string              { return "shape" }
func (g *shape1343) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1344 struct {
	F0 tok.Rule `name:"\x4db"`
}

func (g *shape1344) Read(s *tok.Scanner) error { return nil }
func (g *shape1344) What() string              { return "shape" }
func (g *shape1344) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1345 struct {
	F0 tok.Rule `name:"a\x4d"`
}

func (g *shape1345) Read(s *tok.Scanner) error { return nil }
func (g *shape1345) What() string              { return "shape" }
func (g *shape1345) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1346 struct {
	F0 tok.Rule `name:"a\x4eb"`
}

func (g *shape1346) Read(s *tok.Scanner) error { return nil }
func (g *shape1346) What() string              { return "shape" }
func (g *shape1346) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1347 struct {
	F0 tok.Rule `name:"\x4eb"`
}

func (g *shape1347) Read(s *tok.Scanner) error { return nil }
func (g *shape1347) What() string              { return "shape" }
func (g *shape1347) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1348 struct {
	F0 tok.Rule `name:"a\x4e"`
}

func (g *shape1348) Read(s *tok.Scanner) error { return nil }
func (g *shape1348) What() string              { return "shape" }
func (g *shape1348) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1349 struct {
	F0 tok.Rule `name:"a\x4fb"`
}

func (g *shape1349) Read(s *tok.Scanner) error { return nil }
func (g *shape1349) What() string              { return "shape" }
func (g *shape1349) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1350 struct {
	F0 tok.Rule `name:"\x4fb"`
}

func (g *shape1350) Read(s *tok.Scanner) error { return nil }
func (g *shape1350) What() string              { return "shape" }
func (g *shape1350) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1351 struct {
	F0 tok.Rule `name:"a\x4f"`
}

func (g *shape1351) Read(s *tok.Scanner) error { return nil }
func (g *shape1351) What() string              { return "shape" }
func (g *shape1351) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1352 struct {
	F0 tok.Rule `name:"a\x50b"`
}

func (g *shape1352) Read(s *tok.Scanner) error { return nil }
func (g *shape1352) What() string              { return "shape" }
func (g *shape1352) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1353 struct {
	F0 tok.Rule `name:"\x50b"`
}

func (g *shape1353) Read(s *tok.Scanner) error { return nil }
func (g *shape1353) What() string              { return "shape" }
func (g *shape1353) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1354 struct {
	F0 tok.Rule `name:"a\x50"`
}

func (g *shape1354) Read(s *tok.Scanner) error { return nil }
func (g *shape1354) What() string              { return "shape" }
func (g *shape1354) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1355 struct {
	F0 tok.Rule `name:"a\x51b"`
}

func (g *shape1355) Read(s *tok.Scanner) error { return nil }
func (g *shape1355) What() string              { return "shape" }
func (g *shape1355) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1356 struct {
	F0 tok.Rule `name:"\x51b"`
}

func (g *shape1356) Read(s *tok.Scanner) error { return nil }
func (g *shape1356) What() string              { return "shape" }
func (g *shape1356) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1357 struct {
	F0 tok.Rule `name:"a\x51"`
}

func (g *shape1357) Read(s *tok.Scanner) error { return nil }
func (g *shape1357) What() string              { return "shape" }
func (g *shape1357) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1358 struct {
	F0 tok.Rule `name:"a\x52b"`
}

func (g *shape1358) Read(s *tok.Scanner) error { return nil }
func (g *shape1358) What() string              { return "shape" }
func (g *shape1358) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1359 struct {
	F0 tok.Rule `name:"\x52b"`
}

func (g *shape1359) Read(s *tok.Scanner) error { return nil }
func (g *shape1359) What() string              { return "shape" }
func (g *shape1359) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1360 struct {
	F0 tok.Rule `name:"a\x52"`
}

func (g *shape1360) Read(s *tok.Scanner) error { return nil }
func (g *shape1360) What() string              { return "shape" }
func (g *shape1360) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1361 struct {
	F0 tok.Rule `name:"a\x53b"`
}

func (g *shape1361) Read(s *tok.Scanner) error { return nil }
func (g *shape1361) What() string              { return "shape" }
func (g *shape1361) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1362 struct {
	F0 tok.Rule `name:"\x53b"`
}

func (g *shape1362) Read(s *tok.Scanner) error { return nil }
func (g *shape1362) What() string              { return "shape" }
func (g *shape1362) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1363 struct {
	F0 tok.Rule `name:"a\x53"`
}

func (g *shape1363) Read(s *tok.Scanner) error { return nil }
func (g *shape1363) What() string              { return "shape" }
func (g *shape1363) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1364 struct {
	F0 tok.Rule `name:"a\x54b"`
}

func (g *shape1364) Read(s *tok.Scanner) error { return nil }
func (g *shape1364) What() string              { return "shape" }
func (g *shape1364) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1365 struct {
	F0 tok.Rule `name:"\x54b"`
}

func (g *shape1365) Read(s *tok.Scanner) error { return nil }
func (g *shape1365) What() string              { return "shape" }
func (g *shape1365) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1366 struct {
	F0 tok.Rule `name:"a\x54"`
}

func (g *shape1366) Read(s *tok.Scanner) error { return nil }
func (g *shape1366) What() string              { return "shape" }
func (g *shape1366) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1367 struct {
	F0 tok.Rule `name:"a\x55b"`
}

func (g *shape1367) Read(s *tok.Scanner) error { return nil }
func (g *shape1367) What() string              { return "shape" }
func (g *shape1367) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1368 struct {
	F0 tok.Rule `name:"\x55b"`
}

func (g *shape1368) Read(s *tok.Scanner) error { return nil }
func (g *shape1368) What() string              { return "shape" }
func (g *shape1368) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1369 struct {
	F0 tok.Rule `name:"a\x55"`
}

func (g *shape1369) Read(s *tok.Scanner) error { return nil }
func (g *shape1369) What() string              { return "shape" }
func (g *shape1369) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1370 struct {
	F0 tok.Rule `name:"a\x56b"`
}

func (g *shape1370) Read(s *tok.Scanner) error { return nil }
func (g *shape1370) What() string              { return "shape" }
func (g *shape1370) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1371 struct {
	F0 tok.Rule `name:"\x56b"`
}

func (g *shape1371) Read(s *tok.Scanner) error { return nil }
func (g *shape1371) What() string              { return "shape" }
func (g *shape1371) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1372 struct {
	F0 tok.Rule `name:"a\x56"`
}

func (g *shape1372) Read(s *tok.Scanner) error { return nil }
func (g *shape1372) What() string              { return "shape" }
func (g *shape1372) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1373 struct {
	F0 tok.Rule `name:"a\x57b"`
}

func (g *shape1373) Read(s *tok.Scanner) error { return nil }
func (g *shape1373) What() string              { return "shape" }
func (g *shape1373) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1374 struct {
	F0 tok.Rule `name:"\x57b"`
}

func (g *shape1374) Read(s *tok.Scanner) error { return nil }
func (g *shape1374) What() string              { return "shape" }
func (g *shape1374) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1375 struct {
	F0 tok.Rule `name:"a\x57"`
}

func (g *shape1375) Read(s *tok.Scanner) error { return nil }
func (g *shape1375) What() string              { return "shape" }
func (g *shape1375) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1376 struct {
	F0 tok.Rule `name:"a\x58b"`
}

func (g *shape1376) Read(s *tok.Scanner) error { return nil }
func (g *shape1376) What() string              { return "shape" }
func (g *shape1376) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1377 struct {
	F0 tok.Rule `name:"\x58b"`
}

func (g *shape1377) Read(s *tok.Scanner) error { return nil }
func (g *shape1377) What() string              { return "shape" }
func (g *shape1377) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1378 struct {
	F0 tok.Rule `name:"a\x58"`
}

func (g *shape1378) Read(s *tok.Scanner) error { return nil }
func (g *shape1378) What() string              { return "shape" }
func (g *shape1378) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1379 struct {
	F0 tok.Rule `name:"a\x59b"`
}

func (g *shape1379) Read(s *tok.Scanner) error { return nil }
func (g *shape1379) What() string              { return "shape" }
func (g *shape1379) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1380 struct {
	F0 tok.Rule `name:"\x59b"`
}

func (g *shape1380) Read(s *tok.Scanner) error { return nil }
func (g *shape1380) What() string              { return "shape" }
func (g *shape1380) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1381 struct {
	F0 tok.Rule `name:"a\x59"`
}

func (g *shape1381) Read(s *tok.Scanner) error { return nil }
func (g *shape1381) What() string              { return "shape" }
func (g *shape1381) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1382 struct {
	F0 tok.Rule `name:"a\x5ab"`
}

func (g *shape1382) Read(s *tok.Scanner) error { return nil }
func (g *shape1382) What() string              { return "shape" }
func (g *shape1382) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1383 struct {
	F0 tok.Rule `name:"\x5ab"`
}

func (g *shape1383) Read(s *tok.Scanner) error { return nil }
func (g *shape1383) What() string              { return "shape" }
func (g *shape1383) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1384 struct {
	F0 tok.Rule `name:"a\x5a"`
}

func (g *shape1384) Read(s *tok.Scanner) error { return nil }
func (g *shape1384) What() string              { return "shape" }
func (g *shape1384) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1385 struct {
	F0 tok.Rule `name:"a\x5bb"`
}

func (g *shape1385) Read(s *tok.Scanner) error { return nil }
func (g *shape1385) What() string              { return "shape" }
func (g *shape1385) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1386 struct {
	F0 tok.Rule `name:"\x5bb"`
}

func (g *shape1386) Read(s *tok.Scanner) error { return nil }
func (g *shape1386) What() string              { return "shape" }
func (g *shape1386) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1387 struct {
	F0 tok.Rule `name:"a\x5b"`
}

func (g *shape1387) Read(s *tok.Scanner) error { return nil }
func (g *shape1387) What() string              { return "shape" }
func (g *shape1387) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1388 struct {
	F0 tok.Rule `name:"a\x5cb"`
}

func (g *shape1388) Read(s *tok.Scanner) error { return nil }
func (g *shape1388) What() string              { return "shape" }
func (g *shape1388) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1389 struct {
	F0 tok.Rule `name:"\x5cb"`
}

func (g *shape1389) Read(s *tok.Scanner) error { return nil }
func (g *shape1389) What() string              { return "shape" }
func (g *shape1389) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1390 struct {
	F0 tok.Rule `name:"a\x5c"`
}

func (g *shape1390) Read(s *tok.Scanner) error { return nil }
func (g *shape1390) What() string              { return "shape" }
func (g *shape1390) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1391 struct {
	F0 tok.Rule `name:"a\x5db"`
}

func (g *shape1391) Read(s *tok.Scanner) error { return nil }
func (g *shape1391) What() string              { return "shape" }
func (g *shape1391) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1392 struct {
	F0 tok.Rule `name:"\x5db"`
}

func (g *shape1392) Read(s *tok.Scanner) error { return nil }
func (g *shape1392) What() string              { return "shape" }
func (g *shape1392) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1393 struct {
	F0 tok.Rule `name:"a\x5d"`
}

func (g *shape1393) Read(s *tok.Scanner) error { return nil }
func (g *shape1393) What() string              { return "shape" }
func (g *shape1393) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1394 struct {
	F0 tok.Rule `name:"a\x5eb"`
}

func (g *shape1394) Read(s *tok.Scanner) error { return nil }
func (g *shape1394) What() string              { return "shape" }
func (g *shape1394) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1395 struct {
	F0 tok.Rule `name:"\x5eb"`
}

func (g *shape1395) Read(s *tok.Scanner) error { return nil }
func (g *shape1395) What() string              { return "shape" }
func (g *shape1395) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1396 struct {
	F0 tok.Rule `name:"a\x5e"`
}

func (g *shape1396) Read(s *tok.Scanner) error { return nil }
func (g *shape1396) What() string              { return "shape" }
func (g *shape1396) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1397 struct {
	F0 tok.Rule `name:"a\x5fb"`
}

func (g *shape1397) Read(s *tok.Scanner) error { return nil }
func (g *shape1397) What() string              { return "shape" }
func (g *shape1397) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1398 struct {
	F0 tok.Rule `name:"\x5fb"`
}

func (g *shape1398) Read(s *tok.Scanner) error { return nil }
func (g *shape1398) What() string              { return "shape" }
func (g *shape1398) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1399 struct {
	F0 tok.Rule `name:"a\x5f"`
}

func (g *shape1399) Read(s *tok.Scanner) error { return nil }
func (g *shape1399) What() string              { return "shape" }
func (g *shape1399) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1400 struct {
	F0 tok.Rule `name:"a\x60b"`
}

func (g *shape1400) Read(s *tok.Scanner) error { return nil }
func (g *shape1400) What() string              { return "shape" }
func (g *shape1400) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1401 struct {
	F0 tok.Rule `name:"\x60b"`
}

func (g *shape1401) Read(s *tok.Scanner) error { return nil }
func (g *shape1401) What() string              { return "shape" }
func (g *shape1401) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1402 struct {
	F0 tok.Rule `name:"a\x60"`
}

func (g *shape1402) Read(s *tok.Scanner) error { return nil }
func (g *shape1402) What() string              { return "shape" }
func (g *shape1402) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1403 struct {
	F0 tok.Rule `name:"a\x61b"`
}

func (g *shape1403) Read(s *tok.Scanner) error { return nil }
func (g *shape1403) What() string              { return "shape" }
func (g *shape1403) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1404 struct {
	F0 tok.Rule `name:"\x61b"`
}

func (g *shape1404) Read(s *tok.Scanner) error { return nil }
func (g *shape1404) What() string              { return "shape" }
func (g *shape1404) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1405 struct {
	F0 tok.Rule `name:"a\x61"`
}

func (g *shape1405) Read(s *tok.Scanner) error { return nil }
func (g *shape1405) What() string              { return "shape" }
func (g *shape1405) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1406 struct {
	F0 tok.Rule `name:"a\x62b"`
}

func (g *shape1406) Read(s *tok.Scanner) error { return nil }
func (g *shape1406) What() string              { return "shape" }
func (g *shape1406) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1407 struct {
	F0 tok.Rule `name:"\x62b"`
}

func (g *shape1407) Read(s *tok.Scanner) error { return nil }
func (g *shape1407) What() string              { return "shape" }
func (g *shape1407) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1408 struct {
	F0 tok.Rule `name:"a\x62"`
}

func (g *shape1408) Read(s *tok.Scanner) error { return nil }
func (g *shape1408) What() string              { return "shape" }
func (g *shape1408) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1409 struct {
	F0 tok.Rule `name:"a\x63b"`
}

func (g *shape1409) Read(s *tok.Scanner) error { return nil }
func (g *shape1409) What() string              { return "shape" }
func (g *shape1409) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1410 struct {
	F0 tok.Rule `name:"\x63b"`
}

func (g *shape1410) Read(s *tok.Scanner) error { return nil }
func (g *shape1410) What() string              { return "shape" }
func (g *shape1410) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1411 struct {
	F0 tok.Rule `name:"a\x63"`
}

func (g *shape1411) Read(s *tok.Scanner) error { return nil }
func (g *shape1411) What() string              { return "shape" }
func (g *shape1411) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1412 struct {
	F0 tok.Rule `name:"a\x64b"`
}

func (g *shape1412) Read(s *tok.Scanner) error { return nil }
func (g *shape1412) What() string              { return "shape" }
func (g *shape1412) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1413 struct {
	F0 tok.Rule `name:"\x64b"`
}

func (g *shape1413) Read(s *tok.Scanner) error { return nil }
func (g *shape1413) What() string              { return "shape" }
func (g *shape1413) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1414 struct {
	F0 tok.Rule `name:"a\x64"`
}

func (g *shape1414) Read(s *tok.Scanner) error { return nil }
func (g *shape1414) What() string              { return "shape" }
func (g *shape1414) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1415 struct {
	F0 tok.Rule `name:"a\x65b"`
}

func (g *shape1415) Read(s *tok.Scanner) error { return nil }
func (g *shape1415) What() string              { return "shape" }
func (g *shape1415) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1416 struct {
	F0 tok.Rule `name:"\x65b"`
}

func (g *shape1416) Read(s *tok.Scanner) error { return nil }
func (g *shape1416) What() string              { return "shape" }
func (g *shape1416) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1417 struct {
	F0 tok.Rule `name:"a\x65"`
}

func (g *shape1417) Read(s *tok.Scanner) error { return nil }
func (g *shape1417) What() string              { return "shape" }
func (g *shape1417) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1418 struct {
	F0 tok.Rule `name:"a\x66b"`
}

func (g *shape1418) Read(s *tok.Scanner) error { return nil }
func (g *shape1418) What() string              { return "shape" }
func (g *shape1418) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1419 struct {
	F0 tok.Rule `name:"\x66b"`
}

func (g *shape1419) Read(s *tok.Scanner) error { return nil }
func (g *shape1419) What() string              { return "shape" }
func (g *shape1419) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1420 struct {
	F0 tok.Rule `name:"a\x66"`
}

func (g *shape1420) Read(s *tok.Scanner) error { return nil }
func (g *shape1420) What() string              { return "shape" }
func (g *shape1420) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1421 struct {
	F0 tok.Rule `name:"a\x67b"`
}

func (g *shape1421) Read(s *tok.Scanner) error { return nil }
func (g *shape1421) What() string              { return "shape" }
func (g *shape1421) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1422 struct {
	F0 tok.Rule `name:"\x67b"`
}

func (g *shape1422) Read(s *tok.Scanner) error { return nil }
func (g *shape1422) What() string              { return "shape" }
func (g *shape1422) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1423 struct {
	F0 tok.Rule `name:"a\x67"`
}

func (g *shape1423) Read(s *tok.Scanner) error { return nil }
func (g *shape1423) What() string              { return "shape" }
func (g *shape1423) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1424 struct {
	F0 tok.Rule `name:"a\x68b"`
}

func (g *shape1424) Read(s *tok.Scanner) error { return nil }
func (g *shape1424) What() string              { return "shape" }
func (g *shape1424) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1425 struct {
	F0 tok.Rule `name:"\x68b"`
}

func (g *shape1425) Read(s *tok.Scanner) error { return nil }
func (g *shape1425) What() string              { return "shape" }
func (g *shape1425) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1426 struct {
	F0 tok.Rule `name:"a\x68"`
}

func (g *shape1426) Read(s *tok.Scanner) error { return nil }
func (g *shape1426) What() string              { return "shape" }
func (g *shape1426) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1427 struct {
	F0 tok.Rule `name:"a\x69b"`
}

func (g *shape1427) Read(s *tok.Scanner) error { return nil }
func (g *shape1427) What() string              { return "shape" }
func (g *shape1427) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1428 struct {
	F0 tok.Rule `name:"\x69b"`
}

func (g *shape1428) Read(s *tok.Scanner) error { return nil }
func (g *shape1428) What() string              { return "shape" }
func (g *shape1428) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1429 struct {
	F0 tok.Rule `name:"a\x69"`
}

func (g *shape1429) Read(s *tok.Scanner) error { return nil }
func (g *shape1429) What() string              { return "shape" }
func (g *shape1429) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1430 struct {
	F0 tok.Rule `name:"a\x6ab"`
}

func (g *shape1430) Read(s *tok.Scanner) error { return nil }
func (g *shape1430) What() string              { return "shape" }
func (g *shape1430) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1431 struct {
	F0 tok.Rule `name:"\x6ab"`
}

func (g *shape1431) Read(s *tok.Scanner) error { return nil }
func (g *shape1431) What() string              { return "shape" }
func (g *shape1431) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1432 struct {
	F0 tok.Rule `name:"a\x6a"`
}

func (g *shape1432) Read(s *tok.Scanner) error { return nil }
func (g *shape1432) What() string              { return "shape" }
func (g *shape1432) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1433 struct {
	F0 tok.Rule `name:"a\x6bb"`
}

func (g *shape1433) Read(s *tok.Scanner) error { return nil }
func (g *shape1433) What() string              { return "shape" }
func (g *shape1433) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1434 struct {
	F0 tok.Rule `name:"\x6bb"`
}

func (g *shape1434) Read(s *tok.Scanner) error { return nil }
func (g *shape1434) What() string              { return "shape" }
func (g *shape1434) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1435 struct {
	F0 tok.Rule `name:"a\x6b"`
}

func (g *shape1435) Read(s *tok.Scanner) error { return nil }
func (g *shape1435) What() string              { return "shape" }
func (g *shape1435) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1436 struct {
	F0 tok.Rule `name:"a\x6cb"`
}

func (g *shape1436) Read(s *tok.Scanner) error { return nil }
func (g *shape1436) What() string              { return "shape" }
func (g *shape1436) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1437 struct {
	F0 tok.Rule `name:"\x6cb"`
}

func (g *shape1437) Read(s *tok.Scanner) error { return nil }
func (g *shape1437) What() string              { return "shape" }
func (g *shape1437) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1438 struct {
	F0 tok.Rule `name:"a\x6c"`
}

func (g *shape1438) Read(s *tok.Scanner) error { return nil }
func (g *shape1438) What() string              { return "shape" }
func (g *shape1438) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1439 struct {
	F0 tok.Rule `name:"a\x6db"`
}

func (g *shape1439) Read(s *tok.Scanner) error { return nil }
func (g *shape1439) What() string              { return "shape" }
func (g *shape1439) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1440 struct {
	F0 tok.Rule `name:"\x6db"`
}

func (g *shape1440) Read(s *tok.Scanner) error { return nil }
func (g *shape1440) What() string              { return "shape" }
func (g *shape1440) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1441 struct {
	F0 tok.Rule `name:"a\x6d"`
}

func (g *shape1441) Read(s *tok.Scanner) error { return nil }
func (g *shape1441) What() string              { return "shape" }
func (g *shape1441) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1442 struct {
	F0 tok.Rule `name:"a\x6eb"`
}

func (g *shape1442) Read(s *tok.Scanner) error { return nil }
func (g *shape1442) What() string              { return "shape" }
func (g *shape1442) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1443 struct {
	F0 tok.Rule `name:"\x6eb"`
}

func (g *shape1443) Read(s *tok.Scanner) error { return nil }
func (g *shape1443) What() string              { return "shape" }
func (g *shape1443) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1444 struct {
	F0 tok.Rule `name:"a\x6e"`
}

func (g *shape1444) Read(s *tok.Scanner) error { return nil }
func (g *shape1444) What() string              { return "shape" }
func (g *shape1444) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1445 struct {
	F0 tok.Rule `name:"a\x6fb"`
}

func (g *shape1445) Read(s *tok.Scanner) error { return nil }
func (g *shape1445) What() string              { return "shape" }
func (g *shape1445) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1446 struct {
	F0 tok.Rule `name:"\x6fb"`
}

func (g *shape1446) Read(s *tok.Scanner) error { return nil }
func (g *shape1446) What() string              { return "shape" }
func (g *shape1446) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1447 struct {
	F0 tok.Rule `name:"a\x6f"`
}

func (g *shape1447) Read(s *tok.Scanner) error { return nil }
func (g *shape1447) What() string              { return "shape" }
func (g *shape1447) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1448 struct {
	F0 tok.Rule `name:"a\x70b"`
}

func (g *shape1448) Read(s *tok.Scanner) error { return nil }
func (g *shape1448) What() string              { return "shape" }
func (g *shape1448) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1449 struct {
	F0 tok.Rule `name:"\x70b"`
}

func (g *shape1449) Read(s *tok.Scanner) error { return nil }
func (g *shape1449) What() string              { return "shape" }
func (g *shape1449) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1450 struct {
	F0 tok.Rule `name:"a\x70"`
}

func (g *shape1450) Read(s *tok.Scanner) error { return nil }
func (g *shape1450) What() string              { return "shape" }
func (g *shape1450) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1451 struct {
	F0 tok.Rule `name:"a\x71b"`
}

func (g *shape1451) Read(s *tok.Scanner) error { return nil }
func (g *shape1451) What() string              { return "shape" }
func (g *shape1451) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1452 struct {
	F0 tok.Rule `name:"\x71b"`
}

func (g *shape1452) Read(s *tok.Scanner) error { return nil }
func (g *shape1452) What() string              { return "shape" }
func (g *shape1452) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1453 struct {
	F0 tok.Rule `name:"a\x71"`
}

func (g *shape1453) Read(s *tok.Scanner) error { return nil }
func (g *shape1453) What() string              { return "shape" }
func (g *shape1453) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1454 struct {
	F0 tok.Rule `name:"a\x72b"`
}

func (g *shape1454) Read(s *tok.Scanner) error { return nil }
func (g *shape1454) What() string              { return "shape" }
func (g *shape1454) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1455 struct {
	F0 tok.Rule `name:"\x72b"`
}

func (g *shape1455) Read(s *tok.Scanner) error { return nil }
func (g *shape1455) What() string              { return "shape" }
func (g *shape1455) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1456 struct {
	F0 tok.Rule `name:"a\x72"`
}

func (g *shape1456) Read(s *tok.Scanner) error { return nil }
func (g *shape1456) What() string              { return "shape" }
func (g *shape1456) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1457 struct {
	F0 tok.Rule `name:"a\x73b"`
}

func (g *shape1457) Read(s *tok.Scanner) error { return nil }
func (g *shape1457) What() string              { return "shape" }
func (g *shape1457) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1458 struct {
	F0 tok.Rule `name:"\x73b"`
}

func (g *shape1458) Read(s *tok.Scanner) error { return nil }
func (g *shape1458) What() string              { return "shape" }
func (g *shape1458) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1459 struct {
	F0 tok.Rule `name:"a\x73"`
}

func (g *shape1459) Read(s *tok.Scanner) error { return nil }
func (g *shape1459) What() string              { return "shape" }
func (g *shape1459) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1460 struct {
	F0 tok.Rule `name:"a\x74b"`
}

func (g *shape1460) Read(s *tok.Scanner) error { return nil }
func (g *shape1460) What() string              { return "shape" }
func (g *shape1460) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1461 struct {
	F0 tok.Rule `name:"\x74b"`
}

func (g *shape1461) Read(s *tok.Scanner) error { return nil }
func (g *shape1461) What() string              { return "shape" }
func (g *shape1461) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1462 struct {
	F0 tok.Rule `name:"a\x74"`
}

func (g *shape1462) Read(s *tok.Scanner) error { return nil }
func (g *shape1462) What() string              { return "shape" }
func (g *shape1462) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1463 struct {
	F0 tok.Rule `name:"a\x75b"`
}

func (g *shape1463) Read(s *tok.Scanner) error { return nil }
func (g *shape1463) What() string              { return "shape" }
func (g *shape1463) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1464 struct {
	F0 tok.Rule `name:"\x75b"`
}

func (g *shape1464) Read(s *tok.Scanner) error { return nil }
func (g *shape1464) What() string              { return "shape" }
func (g *shape1464) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1465 struct {
	F0 tok.Rule `name:"a\x75"`
}

func (g *shape1465) Read(s *tok.Scanner) error { return nil }
func (g *shape1465) What() string              { return "shape" }
func (g *shape1465) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1466 struct {
	F0 tok.Rule `name:"a\x76b"`
}

func (g *shape1466) Read(s *tok.Scanner) error { return nil }
func (g *shape1466) What() string              { return "shape" }
func (g *shape1466) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1467 struct {
	F0 tok.Rule `name:"\x76b"`
}

func (g *shape1467) Read(s *tok.Scanner) error { return nil }
func (g *shape1467) What() string              { return "shape" }
func (g *shape1467) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1468 struct {
	F0 tok.Rule `name:"a\x76"`
}

func (g *shape1468) Read(s *tok.Scanner) error { return nil }
func (g *shape1468) What() string              { return "shape" }
func (g *shape1468) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1469 struct {
	F0 tok.Rule `name:"a\x77b"`
}

func (g *shape1469) Read(s *tok.Scanner) error { return nil }
func (g *shape1469) What() string              { return "shape" }
func (g *shape1469) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1470 struct {
	F0 tok.Rule `name:"\x77b"`
}

func (g *shape1470) Read(s *tok.Scanner) error { return nil }
func (g *shape1470) What() string              { return "shape" }
func (g *shape1470) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1471 struct {
	F0 tok.Rule `name:"a\x77"`
}

func (g *shape1471) Read(s *tok.Scanner) error { return nil }
func (g *shape1471) What() string              { return "shape" }
func (g *shape1471) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1472 struct {
	F0 tok.Rule `name:"a\x78b"`
}

func (g *shape1472) Read(s *tok.Scanner) error { return nil }
func (g *shape1472) What() string              { return "shape" }
func (g *shape1472) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1473 struct {
	F0 tok.Rule `name:"\x78b"`
}

func (g *shape1473) Read(s *tok.Scanner) error { return nil }
func (g *shape1473) What() string              { return "shape" }
func (g *shape1473) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1474 struct {
	F0 tok.Rule `name:"a\x78"`
}

func (g *shape1474) Read(s *tok.Scanner) error { return nil }
func (g *shape1474) What() string              { return "shape" }
func (g *shape1474) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1475 struct {
	F0 tok.Rule `name:"a\x79b"`
}

func (g *shape1475) Read(s *tok.Scanner) error { return nil }
func (g *shape1475) What() string              { return "shape" }
func (g *shape1475) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1476 struct {
	F0 tok.Rule `name:"\x79b"`
}

func (g *shape1476) Read(s *tok.Scanner) error { return nil }
func (g *shape1476) What() string              { return "shape" }
func (g *shape1476) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1477 struct {
	F0 tok.Rule `name:"a\x79"`
}

func (g *shape1477) Read(s *tok.Scanner) error { return nil }
func (g *shape1477) What() string              { return "shape" }
func (g *shape1477) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1478 struct {
	F0 tok.Rule `name:"a\x7ab"`
}

func (g *shape1478) Read(s *tok.Scanner) error { return nil }
func (g *shape1478) What() string              { return "shape" }
func (g *shape1478) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1479 struct {
	F0 tok.Rule `name:"\x7ab"`
}

func (g *shape1479) Read(s *tok.Scanner) error { return nil }
func (g *shape1479) What() string              { return "shape" }
func (g *shape1479) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1480 struct {
	F0 tok.Rule `name:"a\x7a"`
}

func (g *shape1480) Read(s *tok.Scanner) error { return nil }
func (g *shape1480) What() string              { return "shape" }
func (g *shape1480) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1481 struct {
	F0 tok.Rule `name:"a\x7bb"`
}

func (g *shape1481) Read(s *tok.Scanner) error { return nil }
func (g *shape1481) What() string              { return "shape" }
func (g *shape1481) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1482 struct {
	F0 tok.Rule `name:"\x7bb"`
}

func (g *shape1482) Read(s *tok.Scanner) error { return nil }
func (g *shape1482) What() string              { return "shape" }
func (g *shape1482) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1483 struct {
	F0 tok.Rule `name:"a\x7b"`
}

func (g *shape1483) Read(s *tok.Scanner) error { return nil }
func (g *shape1483) What() string              { return "shape" }
func (g *shape1483) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1484 struct {
	F0 tok.Rule `name:"a\x7cb"`
}

func (g *shape1484) Read(s *tok.Scanner) error { return nil }
func (g *shape1484) What() string              { return "shape" }
func (g *shape1484) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1485 struct {
	F0 tok.Rule `name:"\x7cb"`
}

func (g *shape1485) Read(s *tok.Scanner) error { return nil }
func (g *shape1485) What() string              { return "shape" }
func (g *shape1485) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1486 struct {
	F0 tok.Rule `name:"a\x7c"`
}

func (g *shape1486) Read(s *tok.Scanner) error { return nil }
func (g *shape1486) What() string              { return "shape" }
func (g *shape1486) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1487 struct {
	F0 tok.Rule `name:"a\x7db"`
}

func (g *shape1487) Read(s *tok.Scanner) error { return nil }
func (g *shape1487) What() string              { return "shape" }
func (g *shape1487) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1488 struct {
	F0 tok.Rule `name:"\x7db"`
}

func (g *shape1488) Read(s *tok.Scanner) error { return nil }
func (g *shape1488) What() string              { return "shape" }
func (g *shape1488) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1489 struct {
	F0 tok.Rule `name:"a\x7d"`
}

func (g *shape1489) Read(s *tok.Scanner) error { return nil }
func (g *shape1489) What() string              { return "shape" }
func (g *shape1489) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1490 struct {
	F0 tok.Rule `name:"a\x7eb"`
}

func (g *shape1490) Read(s *tok.Scanner) error { return nil }
func (g *shape1490) What() string              { return "shape" }
func (g *shape1490) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1491 struct {
	F0 tok.Rule `name:"\x7eb"`
}

func (g *shape1491) Read(s *tok.Scanner) error { return nil }
func (g *shape1491) What() string              { return "shape" }
func (g *shape1491) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1492 struct {
	F0 tok.Rule `name:"a\x7e"`
}

func (g *shape1492) Read(s *tok.Scanner) error { return nil }
func (g *shape1492) What() string              { return "shape" }
func (g *shape1492) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1493 struct {
	F0 tok.Rule `name:"a\x7fb"`
}

func (g *shape1493) Read(s *tok.Scanner) error { return nil }
func (g *shape1493) What() string              { return "shape" }
func (g *shape1493) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1494 struct {
	F0 tok.Rule `name:"a\x80b"`
}

func (g *shape1494) Read(s *tok.Scanner) error { return nil }
func (g *shape1494) What() string              { return "shape" }
func (g *shape1494) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1495 struct {
	F0 tok.Rule `name:"a\x81b"`
}

func (g *shape1495) Read(s *tok.Scanner) error { return nil }
func (g *shape1495) What() string              { return "shape" }
func (g *shape1495) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1496 struct {
	F0 tok.Rule `name:"a\x82b"`
}

func (g *shape1496) Read(s *tok.Scanner) error { return nil }
func (g *shape1496) What() string              { return "shape" }
func (g *shape1496) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1497 struct {
	F0 tok.Rule `name:"a\x83b"`
}

func (g *shape1497) Read(s *tok.Scanner) error { return nil }
func (g *shape1497) What() string              { return "shape" }
func (g *shape1497) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1498 struct {
	F0 tok.Rule `name:"a\x84b"`
}

func (g *shape1498) Read(s *tok.Scanner) error { return nil }
func (g *shape1498) What() string              { return "shape" }
func (g *shape1498) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1499 struct {
	F0 tok.Rule `name:"a\x85b"`
}

func (g *shape1499) Read(s *tok.Scanner) error { return nil }
func (g *shape1499) What() string              { return "shape" }
func (g *shape1499) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1500 struct {
	F0 tok.Rule `name:"a\x86b"`
}

func (g *shape1500) Read(s *tok.Scanner) error { return nil }
func (g *shape1500) What() string              { return "shape" }
func (g *shape1500) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1501 struct {
	F0 tok.Rule `name:"a\x87b"`
}

func (g *shape1501) Read(s *tok.Scanner) error { return nil }
func (g *shape1501) What() string              { return "shape" }
func (g *shape1501) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1502 struct {
	F0 tok.Rule `name:"a\x88b"`
}

func (g *shape1502) Read(s *tok.Scanner) error { return nil }
func (g *shape1502) What() string              { return "shape" }
func (g *shape1502) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1503 struct {
	F0 tok.Rule `name:"a\x89b"`
}

func (g *shape1503) Read(s *tok.Scanner) error { return nil }
func (g *shape1503) What() string              { return "shape" }
func (g *shape1503) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1504 struct {
	F0 tok.Rule `name:"a\x8ab"`
}

func (g *shape1504) Read(s *tok.Scanner) error { return nil }
func (g *shape1504) What() string              { return "shape" }
func (g *shape1504) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1505 struct {
	F0 tok.Rule `name:"a\x8bb"`
}

func (g *shape1505) Read(s *tok.Scanner) error { return nil }
func (g *shape1505) What() string              { return "shape" }
func (g *shape1505) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1506 struct {
	F0 tok.Rule `name:"a\x8cb"`
}

func (g *shape1506) Read(s *tok.Scanner) error { return nil }
func (g *shape1506) What() string              { return "shape" }
func (g *shape1506) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1507 struct {
	F0 tok.Rule `name:"a\x8db"`
}

func (g *shape1507) Read(s *tok.Scanner) error { return nil }
func (g *shape1507) What() string              { return "shape" }
func (g *shape1507) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1508 struct {
	F0 tok.Rule `name:"a\x8eb"`
}

func (g *shape1508) Read(s *tok.Scanner) error { return nil }
func (g *shape1508) What() string              { return "shape" }
func (g *shape1508) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1509 struct {
	F0 tok.Rule `name:"a\x8fb"`
}

func (g *shape1509) Read(s *tok.Scanner) error { return nil }
func (g *shape1509) What() string              { return "shape" }
func (g *shape1509) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1510 struct {
	F0 tok.Rule `name:"a\x90b"`
}

func (g *shape1510) Read(s *tok.Scanner) error { return nil }
func (g *shape1510) What() string              { return "shape" }
func (g *shape1510) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1511 struct {
	F0 tok.Rule `name:"a\x91b"`
}

func (g *shape1511) Read(s *tok.Scanner) error { return nil }
func (g *shape1511) What() string              { return "shape" }
func (g *shape1511) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1512 struct {
	F0 tok.Rule `name:"a\x92b"`
}

func (g *shape1512) Read(s *tok.Scanner) error { return nil }
func (g *shape1512) What() string              { return "shape" }
func (g *shape1512) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1513 struct {
	F0 tok.Rule `name:"a\x93b"`
}

func (g *shape1513) Read(s *tok.Scanner) error { return nil }
func (g *shape1513) What() string              { return "shape" }
func (g *shape1513) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1514 struct {
	F0 tok.Rule `name:"a\x94b"`
}

func (g *shape1514) Read(s *tok.Scanner) error { return nil }
func (g *shape1514) What() string              { return "shape" }
func (g *shape1514) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1515 struct {
	F0 tok.Rule `name:"a\x95b"`
}

func (g *shape1515) Read(s *tok.Scanner) error { return nil }
func (g *shape1515) What() string              { return "shape" }
func (g *shape1515) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1516 struct {
	F0 tok.Rule `name:"a\x96b"`
}

func (g *shape1516) Read(s *tok.Scanner) error { return nil }
func (g *shape1516) What() string              { return "shape" }
func (g *shape1516) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1517 struct {
	F0 tok.Rule `name:"a\x97b"`
}

func (g *shape1517) Read(s *tok.Scanner) error { return nil }
func (g *shape1517) What() string              { return "shape" }
func (g *shape1517) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1518 struct {
	F0 tok.Rule `name:"a\x98b"`
}

func (g *shape1518) Read(s *tok.Scanner) error { return nil }
func (g *shape1518) What() string              { return "shape" }
func (g *shape1518) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1519 struct {
	F0 tok.Rule `name:"a\x99b"`
}

func (g *shape1519) Read(s *tok.Scanner) error { return nil }
func (g *shape1519) What() string              { return "shape" }
func (g *shape1519) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1520 struct {
	F0 tok.Rule `name:"a\x9ab"`
}

func (g *shape1520) Read(s *tok.Scanner) error { return nil }
func (g *shape1520) What() string              { return "shape" }
func (g *shape1520) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1521 struct {
	F0 tok.Rule `name:"a\x9bb"`
}

func (g *shape1521) Read(s *tok.Scanner) error { return nil }
func (g *shape1521) What() string              { return "shape" }
func (g *shape1521) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1522 struct {
	F0 tok.Rule `name:"a\x9cb"`
}

func (g *shape1522) Read(s *tok.Scanner) error { return nil }
func (g *shape1522) What() string              { return "shape" }
func (g *shape1522) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1523 struct {
	F0 tok.Rule `name:"a\x9db"`
}

func (g *shape1523) Read(s *tok.Scanner) error { return nil }
func (g *shape1523) What() string              { return "shape" }
func (g *shape1523) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1524 struct {
	F0 tok.Rule `name:"a\x9eb"`
}

func (g *shape1524) Read(s *tok.Scanner) error { return nil }
func (g *shape1524) What() string              { return "shape" }
func (g *shape1524) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1525 struct {
	F0 tok.Rule `name:"a\x9fb"`
}

func (g *shape1525) Read(s *tok.Scanner) error { return nil }
func (g *shape1525) What() string              { return "shape" }
func (g *shape1525) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1526 struct {
	F0 tok.Rule `name:"a\xa0b"`
}

func (g *shape1526) Read(s *tok.Scanner) error { return nil }
func (g *shape1526) What() string              { return "shape" }
func (g *shape1526) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1527 struct {
	F0 tok.Rule `name:"a\xa1b"`
}

func (g *shape1527) Read(s *tok.Scanner) error { return nil }
func (g *shape1527) What() string              { return "shape" }
func (g *shape1527) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1528 struct {
	F0 tok.Rule `name:"a\xa2b"`
}

func (g *shape1528) Read(s *tok.Scanner) error { return nil }
func (g *shape1528) What() string              { return "shape" }
func (g *shape1528) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1529 struct {
	F0 tok.Rule `name:"a\xa3b"`
}

func (g *shape1529) Read(s *tok.Scanner) error { return nil }
func (g *shape1529) What() string              { return "shape" }
func (g *shape1529) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1530 struct {
	F0 tok.Rule `name:"a\xa4b"`
}

func (g *shape1530) Read(s *tok.Scanner) error { return nil }
func (g *shape1530) What() string              { return "shape" }
func (g *shape1530) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1531 struct {
	F0 tok.Rule `name:"a\xa5b"`
}

func (g *shape1531) Read(s *tok.Scanner) error { return nil }
func (g *shape1531) What() string              { return "shape" }
func (g *shape1531) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1532 struct {
	F0 tok.Rule `name:"a\xa6b"`
}

func (g *shape1532) Read(s *tok.Scanner) error { return nil }
func (g *shape1532) What() string              { return "shape" }
func (g *shape1532) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1533 struct {
	F0 tok.Rule `name:"a\xa7b"`
}

func (g *shape1533) Read(s *tok.Scanner) error { return nil }
func (g *shape1533) What() string              { return "shape" }
func (g *shape1533) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1534 struct {
	F0 tok.Rule `name:"a\xa8b"`
}

func (g *shape1534) Read(s *tok.Scanner) error { return nil }
func (g *shape1534) What() string              { return "shape" }
func (g *shape1534) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1535 struct {
	F0 tok.Rule `name:"a\xa9b"`
}

func (g *shape1535) Read(s *tok.Scanner) error { return nil }
func (g *shape1535) What() string              { return "shape" }
func (g *shape1535) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1536 struct {
	F0 tok.Rule `name:"a\xaab"`
}

func (g *shape1536) Read(s *tok.Scanner) error { return nil }
func (g *shape1536) What() string              { return "shape" }
func (g *shape1536) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1537 struct {
	F0 tok.Rule `name:"a\xabb"`
}

func (g *shape1537) Read(s *tok.Scanner) error { return nil }
func (g *shape1537) What() string              { return "shape" }
func (g *shape1537) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1538 struct {
	F0 tok.Rule `name:"a\xacb"`
}

func (g *shape1538) Read(s *tok.Scanner) error { return nil }
func (g *shape1538) What() string              { return "shape" }
func (g *shape1538) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1539 struct {
	F0 tok.Rule `name:"a\xadb"`
}

func (g *shape1539) Read(s *tok.Scanner) error { return nil }
func (g *shape1539) What() string              { return "shape" }
func (g *shape1539) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1540 struct {
	F0 tok.Rule `name:"a\xaeb"`
}

func (g *shape1540) Read(s *tok.Scanner) error { return nil }
func (g *shape1540) What() string              { return "shape" }
func (g *shape1540) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1541 struct {
	F0 tok.Rule `name:"a\xafb"`
}

func (g *shape1541) Read(s *tok.Scanner) error { return nil }
func (g *shape1541) What() string              { return "shape" }
func (g *shape1541) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1542 struct {
	F0 tok.Rule `name:"a\xb0b"`
}

func (g *shape1542) Read(s *tok.Scanner) error { return nil }
func (g *shape1542) What() string              { return "shape" }
func (g *shape1542) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1543 struct {
	F0 tok.Rule `name:"a\xb1b"`
}

func (g *shape1543) Read(s *tok.Scanner) error { return nil }
func (g *shape1543) What() string              { return "shape" }
func (g *shape1543) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1544 struct {
	F0 tok.Rule `name:"a\xb2b"`
}

func (g *shape1544) Read(s *tok.Scanner) error { return nil }
func (g *shape1544) What() string              { return "shape" }
func (g *shape1544) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1545 struct {
	F0 tok.Rule `name:"a\xb3b"`
}

func (g *shape1545) Read(s *tok.Scanner) error { return nil }
func (g *shape1545) What() string              { return "shape" }
func (g *shape1545) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1546 struct {
	F0 tok.Rule `name:"a\xb4b"`
}

func (g *shape1546) Read(s *tok.Scanner) error { return nil }
func (g *shape1546) What() string              { return "shape" }
func (g *shape1546) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1547 struct {
	F0 tok.Rule `name:"a\xb5b"`
}

func (g *shape1547) Read(s *tok.Scanner) error { return nil }
func (g *shape1547) What() string              { return "shape" }
func (g *shape1547) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1548 struct {
	F0 tok.Rule `name:"a\xb6b"`
}

func (g *shape1548) Read(s *tok.Scanner) error { return nil }
func (g *shape1548) What() string              { return "shape" }
func (g *shape1548) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1549 struct {
	F0 tok.Rule `name:"a\xb7b"`
}

func (g *shape1549) Read(s *tok.Scanner) error { return nil }
func (g *shape1549) What() string              { return "shape" }
func (g *shape1549) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1550 struct {
	F0 tok.Rule `name:"a\xb8b"`
}

func (g *shape1550) Read(s *tok.Scanner) error { return nil }
func (g *shape1550) What() string              { return "shape" }
func (g *shape1550) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1551 struct {
	F0 tok.Rule `name:"a\xb9b"`
}

func (g *shape1551) Read(s *tok.Scanner) error { return nil }
func (g *shape1551) What() string              { return "shape" }
func (g *shape1551) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1552 struct {
	F0 tok.Rule `name:"a\xbab"`
}

func (g *shape1552) Read(s *tok.Scanner) error { return nil }
func (g *shape1552) What() string              { return "shape" }
func (g *shape1552) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1553 struct {
	F0 tok.Rule `name:"a\xbbb"`
}

func (g *shape1553) Read(s *tok.Scanner) error { return nil }
func (g *shape1553) What() string              { return "shape" }
func (g *shape1553) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1554 struct {
	F0 tok.Rule `name:"a\xbcb"`
}

func (g *shape1554) Read(s *tok.Scanner) error { return nil }
func (g *shape1554) What() string              { return "shape" }
func (g *shape1554) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1555 struct {
	F0 tok.Rule `name:"a\xbdb"`
}

func (g *shape1555) Read(s *tok.Scanner) error { return nil }
func (g *shape1555) What() string              { return "shape" }
func (g *shape1555) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1556 struct {
	F0 tok.Rule `name:"a\xbeb"`
}

func (g *shape1556) Read(s *tok.Scanner) error { return nil }
func (g *shape1556) What() string              { return "shape" }
func (g *shape1556) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1557 struct {
	F0 tok.Rule `name:"a\xbfb"`
}

func (g *shape1557) Read(s *tok.Scanner) error { return nil }
func (g *shape1557) What() string              { return "shape" }
func (g *shape1557) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1558 struct {
	F0 tok.Rule `name:"a\xc0b"`
}

func (g *shape1558) Read(s *tok.Scanner) error { return nil }
func (g *shape1558) What() string              { return "shape" }
func (g *shape1558) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1559 struct {
	F0 tok.Rule `name:"a\xc1b"`
}

func (g *shape1559) Read(s *tok.Scanner) error { return nil }
func (g *shape1559) What() string              { return "shape" }
func (g *shape1559) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1560 struct {
	F0 tok.Rule `name:"a\xc2b"`
}

func (g *shape1560) Read(s *tok.Scanner) error { return nil }
func (g *shape1560) What() string              { return "shape" }
func (g *shape1560) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1561 struct {
	F0 tok.Rule `name:"a\xc3b"`
}

func (g *shape1561) Read(s *tok.Scanner) error { return nil }
func (g *shape1561) What() string              { return "shape" }
func (g *shape1561) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1562 struct {
	F0 tok.Rule `name:"a\xc4b"`
}

func (g *shape1562) Read(s *tok.Scanner) error { return nil }
func (g *shape1562) What() string              { return "shape" }
func (g *shape1562) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1563 struct {
	F0 tok.Rule `name:"a\xc5b"`
}

func (g *shape1563) Read(s *tok.Scanner) error { return nil }
func (g *shape1563) What() string              { return "shape" }
func (g *shape1563) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1564 struct {
	F0 tok.Rule `name:"a\xc6b"`
}

func (g *shape1564) Read(s *tok.Scanner) error { return nil }
func (g *shape1564) What() string              { return "shape" }
func (g *shape1564) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1565 struct {
	F0 tok.Rule `name:"a\xc7b"`
}

func (g *shape1565) Read(s *tok.Scanner) error { return nil }
func (g *shape1565) What() string              { return "shape" }
func (g *shape1565) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1566 struct {
	F0 tok.Rule `name:"a\xc8b"`
}

func (g *shape1566) Read(s *tok.Scanner) error { return nil }
func (g *shape1566) What() string              { return "shape" }
func (g *shape1566) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1567 struct {
	F0 tok.Rule `name:"a\xc9b"`
}

func (g *shape1567) Read(s *tok.Scanner) error { return nil }
func (g *shape1567) What() string              { return "shape" }
func (g *shape1567) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1568 struct {
	F0 tok.Rule `name:"a\xcab"`
}

func (g *shape1568) Read(s *tok.Scanner) error { return nil }
func (g *shape1568) What() string              { return "shape" }
func (g *shape1568) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1569 struct {
	F0 tok.Rule `name:"a\xcbb"`
}

func (g *shape1569) Read(s *tok.Scanner) error { return nil }
func (g *shape1569) What() string              { return "shape" }
func (g *shape1569) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1570 struct {
	F0 tok.Rule `name:"a\xccb"`
}

func (g *shape1570) Read(s *tok.Scanner) error { return nil }
func (g *shape1570) What() string              { return "shape" }
func (g *shape1570) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1571 struct {
	F0 tok.Rule `name:"a\xcdb"`
}

func (g *shape1571) Read(s *tok.Scanner) error { return nil }
func (g *shape1571) What() string              { return "shape" }
func (g *shape1571) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1572 struct {
	F0 tok.Rule `name:"a\xceb"`
}

func (g *shape1572) Read(s *tok.Scanner) error { return nil }
func (g *shape1572) What() string              { return "shape" }
func (g *shape1572) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1573 struct {
	F0 tok.Rule `name:"a\xcfb"`
}

func (g *shape1573) Read(s *tok.Scanner) error { return nil }
func (g *shape1573) What() string              { return "shape" }
func (g *shape1573) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1574 struct {
	F0 tok.Rule `name:"a\xd0b"`
}

func (g *shape1574) Read(s *tok.Scanner) error { return nil }
func (g *shape1574) What() string              { return "shape" }
func (g *shape1574) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1575 struct {
	F0 tok.Rule `name:"a\xd1b"`
}

func (g *shape1575) Read(s *tok.Scanner) error { return nil }
func (g *shape1575) What() string              { return "shape" }
func (g *shape1575) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1576 struct {
	F0 tok.Rule `name:"a\xd2b"`
}

func (g *shape1576) Read(s *tok.Scanner) error { return nil }
func (g *shape1576) What() string              { return "shape" }
func (g *shape1576) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1577 struct {
	F0 tok.Rule `name:"a\xd3b"`
}

func (g *shape1577) Read(s *tok.Scanner) error { return nil }
func (g *shape1577) What() string              { return "shape" }
func (g *shape1577) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1578 struct {
	F0 tok.Rule `name:"a\xd4b"`
}

func (g *shape1578) Read(s *tok.Scanner) error { return nil }
func (g *shape1578) What() string              { return "shape" }
func (g *shape1578) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1579 struct {
	F0 tok.Rule `name:"a\xd5b"`
}

func (g *shape1579) Read(s *tok.Scanner) error { return nil }
func (g *shape1579) What() string              { return "shape" }
func (g *shape1579) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1580 struct {
	F0 tok.Rule `name:"a\xd6b"`
}

func (g *shape1580) Read(s *tok.Scanner) error { return nil }
func (g *shape1580) What() string              { return "shape" }
func (g *shape1580) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1581 struct {
	F0 tok.Rule `name:"a\xd7b"`
}

func (g *shape1581) Read(s *tok.Scanner) error { return nil }
func (g *shape1581) What() string              { return "shape" }
func (g *shape1581) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1582 struct {
	F0 tok.Rule `name:"a\xd8b"`
}

func (g *shape1582) Read(s *tok.Scanner) error { return nil }
func (g *shape1582) What() string              { return "shape" }
func (g *shape1582) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1583 struct {
	F0 tok.Rule `name:"a\xd9b"`
}

func (g *shape1583) Read(s *tok.Scanner) error { return nil }
func (g *shape1583) What() string              { return "shape" }
func (g *shape1583) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1584 struct {
	F0 tok.Rule `name:"a\xdab"`
}

func (g *shape1584) Read(s *tok.Scanner) error { return nil }
func (g *shape1584) What() string              { return "shape" }
func (g *shape1584) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1585 struct {
	F0 tok.Rule `name:"a\xdbb"`
}

func (g *shape1585) Read(s *tok.Scanner) error { return nil }
func (g *shape1585) What() string              { return "shape" }
func (g *shape1585) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1586 struct {
	F0 tok.Rule `name:"a\xdcb"`
}

func (g *shape1586) Read(s *tok.Scanner) error { return nil }
func (g *shape1586) What() string              { return "shape" }
func (g *shape1586) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1587 struct {
	F0 tok.Rule `name:"a\xddb"`
}

func (g *shape1587) Read(s *tok.Scanner) error { return nil }
func (g *shape1587) What() string              { return "shape" }
func (g *shape1587) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1588 struct {
	F0 tok.Rule `name:"a\xdeb"`
}

func (g *shape1588) Read(s *tok.Scanner) error { return nil }
func (g *shape1588) What() string              { return "shape" }
func (g *shape1588) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1589 struct {
	F0 tok.Rule `name:"a\xdfb"`
}

func (g *shape1589) Read(s *tok.Scanner) error { return nil }
func (g *shape1589) What() string              { return "shape" }
func (g *shape1589) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1590 struct {
	F0 tok.Rule `name:"a\xe0b"`
}

func (g *shape1590) Read(s *tok.Scanner) error { return nil }
func (g *shape1590) What() string              { return "shape" }
func (g *shape1590) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1591 struct {
	F0 tok.Rule `name:"a\xe1b"`
}

func (g *shape1591) Read(s *tok.Scanner) error { return nil }
func (g *shape1591) What() string              { return "shape" }
func (g *shape1591) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1592 struct {
	F0 tok.Rule `name:"a\xe2b"`
}

func (g *shape1592) Read(s *tok.Scanner) error { return nil }
func (g *shape1592) What() string              { return "shape" }
func (g *shape1592) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1593 struct {
	F0 tok.Rule `name:"a\xe3b"`
}

func (g *shape1593) Read(s *tok.Scanner) error { return nil }
func (g *shape1593) What() string              { return "shape" }
func (g *shape1593) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1594 struct {
	F0 tok.Rule `name:"a\xe4b"`
}

func (g *shape1594) Read(s *tok.Scanner) error { return nil }
func (g *shape1594) What() string              { return "shape" }
func (g *shape1594) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1595 struct {
	F0 tok.Rule `name:"a\xe5b"`
}

func (g *shape1595) Read(s *tok.Scanner) error { return nil }
func (g *shape1595) What() string              { return "shape" }
func (g *shape1595) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1596 struct {
	F0 tok.Rule `name:"a\xe6b"`
}

func (g *shape1596) Read(s *tok.Scanner) error { return nil }
func (g *shape1596) What() string              { return "shape" }
func (g *shape1596) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1597 struct {
	F0 tok.Rule `name:"a\xe7b"`
}

func (g *shape1597) Read(s *tok.Scanner) error { return nil }
func (g *shape1597) What() string              { return "shape" }
func (g *shape1597) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1598 struct {
	F0 tok.Rule `name:"a\xe8b"`
}

func (g *shape1598) Read(s *tok.Scanner) error { return nil }
func (g *shape1598) What() string              { return "shape" }
func (g *shape1598) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1599 struct {
	F0 tok.Rule `name:"a\xe9b"`
}

func (g *shape1599) Read(s *tok.Scanner) error { return nil }
func (g *shape1599) What() string              { return "shape" }
func (g *shape1599) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1600 struct {
	F0 tok.Rule `name:"a\xeab"`
}

func (g *shape1600) Read(s *tok.Scanner) error { return nil }
func (g *shape1600) What() string              { return "shape" }
func (g *shape1600) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1601 struct {
	F0 tok.Rule `name:"a\xebb"`
}

func (g *shape1601) Read(s *tok.Scanner) error { return nil }
func (g *shape1601) What() string              { return "shape" }
func (g *shape1601) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1602 struct {
	F0 tok.Rule `name:"a\xecb"`
}

func (g *shape1602) Read(s *tok.Scanner) error { return nil }
func (g *shape1602) What() string              { return "shape" }
func (g *shape1602) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1603 struct {
	F0 tok.Rule `name:"a\xedb"`
}

func (g *shape1603) Read(s *tok.Scanner) error { return nil }
func (g *shape1603) What() string              { return "shape" }
func (g *shape1603) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1604 struct {
	F0 tok.Rule `name:"a\xeeb"`
}

func (g *shape1604) Read(s *tok.Scanner) error { return nil }
func (g *shape1604) What() string              { return "shape" }
func (g *shape1604) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1605 struct {
	F0 tok.Rule `name:"a\xefb"`
}

func (g *shape1605) Read(s *tok.Scanner) error { return nil }
func (g *shape1605) What() string              { return "shape" }
func (g *shape1605) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1606 struct {
	F0 tok.Rule `name:"a\xf0b"`
}

func (g *shape1606) Read(s *tok.Scanner) error { return nil }
func (g *shape1606) What() string              { return "shape" }
func (g *shape1606) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1607 struct {
	F0 tok.Rule `name:"a\xf1b"`
}

func (g *shape1607) Read(s *tok.Scanner) error { return nil }
func (g *shape1607) What() string              { return "shape" }
func (g *shape1607) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1608 struct {
	F0 tok.Rule `name:"a\xf2b"`
}

func (g *shape1608) Read(s *tok.Scanner) error { return nil }
func (g *shape1608) What() string              { return "shape" }
func (g *shape1608) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1609 struct {
	F0 tok.Rule `name:"a\xf3b"`
}

func (g *shape1609) Read(s *tok.Scanner) error { return nil }
func (g *shape1609) What() string              { return "shape" }
func (g *shape1609) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1610 struct {
	F0 tok.Rule `name:"a\xf4b"`
}

func (g *shape1610) Read(s *tok.Scanner) error { return nil }
func (g *shape1610) What() string              { return "shape" }
func (g *shape1610) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1611 struct {
	F0 tok.Rule `name:"a\xf5b"`
}

func (g *shape1611) Read(s *tok.Scanner) error { return nil }
func (g *shape1611) What() string              { return "shape" }
func (g *shape1611) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1612 struct {
	F0 tok.Rule `name:"a\xf6b"`
}

func (g *shape1612) Read(s *tok.Scanner) error { return nil }
func (g *shape1612) What() string              { return "shape" }
func (g *shape1612) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1613 struct {
	F0 tok.Rule `name:"a\xf7b"`
}

func (g *shape1613) Read(s *tok.Scanner) error { return nil }
func (g *shape1613) What() string              { return "shape" }
func (g *shape1613) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1614 struct {
	F0 tok.Rule `name:"a\xf8b"`
}

func (g *shape1614) Read(s *tok.Scanner) error { return nil }
func (g *shape1614) What() string              { return "shape" }
func (g *shape1614) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1615 struct {
	F0 tok.Rule `name:"a\xf9b"`
}

func (g *shape1615) Read(s *tok.Scanner) error { return nil }
func (g *shape1615) What() string              { return "shape" }
func (g *shape1615) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1616 struct {
	F0 tok.Rule `name:"a\xfab"`
}

func (g *shape1616) Read(s *tok.Scanner) error { return nil }
func (g *shape1616) What() string              { return "shape" }
func (g *shape1616) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1617 struct {
	F0 tok.Rule `name:"a\xfbb"`
}

func (g *shape1617) Read(s *tok.Scanner) error { return nil }
func (g *shape1617) What() string              { return "shape" }
func (g *shape1617) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1618 struct {
	F0 tok.Rule `name:"a\xfcb"`
}

func (g *shape1618) Read(s *tok.Scanner) error { return nil }
func (g *shape1618) What() string              { return "shape" }
func (g *shape1618) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1619 struct {
	F0 tok.Rule `name:"a\xfdb"`
}

func (g *shape1619) Read(s *tok.Scanner) error { return nil }
func (g *shape1619) What() string              { return "shape" }
func (g *shape1619) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1620 struct {
	F0 tok.Rule `name:"a\xfeb"`
}

func (g *shape1620) Read(s *tok.Scanner) error { return nil }
func (g *shape1620) What() string              { return "shape" }
func (g *shape1620) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1621 struct {
	F0 tok.Rule `name:"a\xffb"`
}

func (g *shape1621) Read(s *tok.Scanner) error { return nil }
func (g *shape1621) What() string              { return "shape" }
func (g *shape1621) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1622 struct {
	F0 tok.Rule `name:"a" name:"b"`
}

func (g *shape1622) Read(s *tok.Scanner) error { return nil }
func (g *shape1622) What() string              { return "shape" }
func (g *shape1622) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1623 struct {
	F0 tok.Rule `json:"name:x" name:"q"`
}

func (g *shape1623) Read(s *tok.Scanner) error { return nil }
func (g *shape1623) What() string              { return "shape" }
func (g *shape1623) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1624 struct {
	F0 tok.Rule `  name:"a"`
}

func (g *shape1624) Read(s *tok.Scanner) error { return nil }
func (g *shape1624) What() string              { return "shape" }
func (g *shape1624) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1625 struct {
	F0 tok.Rule `name:'a'`
}

func (g *shape1625) Read(s *tok.Scanner) error { return nil }
func (g *shape1625) What() string              { return "shape" }
func (g *shape1625) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1626 struct {
	F0 tok.Rule `name:a`
}

func (g *shape1626) Read(s *tok.Scanner) error { return nil }
func (g *shape1626) What() string              { return "shape" }
func (g *shape1626) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1627 struct {
	F0 tok.Rule `Name:"a"`
}

func (g *shape1627) Read(s *tok.Scanner) error { return nil }
func (g *shape1627) What() string              { return "shape" }
func (g *shape1627) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1628 struct {
	F0 tok.Rule `"name:a"`
}

func (g *shape1628) Read(s *tok.Scanner) error { return nil }
func (g *shape1628) What() string              { return "shape" }
func (g *shape1628) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1629 struct {
	F0 tok.Rule `xname:"a"`
}

func (g *shape1629) Read(s *tok.Scanner) error { return nil }
func (g *shape1629) What() string              { return "shape" }
func (g *shape1629) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1630 struct {
	F0 tok.Rule `name :"a"`
}

func (g *shape1630) Read(s *tok.Scanner) error { return nil }
func (g *shape1630) What() string              { return "shape" }
func (g *shape1630) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1631 struct {
	F0 tok.Rule `a`
}

func (g *shape1631) Read(s *tok.Scanner) error { return nil }
func (g *shape1631) What() string              { return "shape" }
func (g *shape1631) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1632 struct {
	F0 tok.Rule `json:"x,omitempty" name:"a" xml:"-"`
}

func (g *shape1632) Read(s *tok.Scanner) error { return nil }
func (g *shape1632) What() string              { return "shape" }
func (g *shape1632) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1633 struct {
	F0 tok.Rule `name:"-"`
}

func (g *shape1633) Read(s *tok.Scanner) error { return nil }
func (g *shape1633) What() string              { return "shape" }
func (g *shape1633) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1634 struct {
	F0 tok.Rule `name:"ä"`
}

func (g *shape1634) Read(s *tok.Scanner) error { return nil }
func (g *shape1634) What() string              { return "shape" }
func (g *shape1634) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1635 struct {
	F0 tok.Rule `name:"aä"`
}

func (g *shape1635) Read(s *tok.Scanner) error { return nil }
func (g *shape1635) What() string              { return "shape" }
func (g *shape1635) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1636 struct {
	F0 tok.Rule `name:"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"`
}

func (g *shape1636) Read(s *tok.Scanner) error { return nil }
func (g *shape1636) What() string              { return "shape" }
func (g *shape1636) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1637 struct {
	F0 tok.Rule `name:"a.b-c_d+e"`
}

func (g *shape1637) Read(s *tok.Scanner) error { return nil }
func (g *shape1637) What() string              { return "shape" }
func (g *shape1637) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1638 struct {
	F0 tok.Rule `name:"a.b,omitempty"`
}

func (g *shape1638) Read(s *tok.Scanner) error { return nil }
func (g *shape1638) What() string              { return "shape" }
func (g *shape1638) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1639 struct {
	tok.Rule `name:"emb"`
}

func (g *shape1639) Read(s *tok.Scanner) error { return nil }
func (g *shape1639) What() string              { return "shape" }
func (g *shape1639) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1640 struct {
	tok.Rule `name:"emb"`
	F1       tok.Rule `name:"a1"`
}

func (g *shape1640) Read(s *tok.Scanner) error { return nil }
func (g *shape1640) What() string              { return "shape" }
func (g *shape1640) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1641 struct {
	F0       tok.Rule `name:"a0"`
	tok.Rule `name:"emb"`
}

func (g *shape1641) Read(s *tok.Scanner) error { return nil }
func (g *shape1641) What() string              { return "shape" }
func (g *shape1641) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1642 struct {
	F0       tok.Rule `name:"a0"`
	tok.Rule `name:"emb"`
	F2       tok.Rule `name:"2x"`
}

func (g *shape1642) Read(s *tok.Scanner) error { return nil }
func (g *shape1642) What() string              { return "shape" }
func (g *shape1642) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1643 struct {
	f0       tok.Rule `name:"a0"`
	tok.Rule `name:"emb"`
	F2       tok.Rule `name:"a2"`
}

func (g *shape1643) Read(s *tok.Scanner) error { return nil }
func (g *shape1643) What() string              { return "shape" }
func (g *shape1643) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1644 struct {
	tok.Rule
}

func (g *shape1644) Read(s *tok.Scanner) error { return nil }
func (g *shape1644) What() string              { return "shape" }
func (g *shape1644) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1645 struct {
	tok.Rule
	F1 tok.Rule `name:"a1"`
}

func (g *shape1645) Read(s *tok.Scanner) error { return nil }
func (g *shape1645) What() string              { return "shape" }
func (g *shape1645) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1646 struct {
	F0 tok.Rule `name:"a0"`
	tok.Rule
}

func (g *shape1646) Read(s *tok.Scanner) error { return nil }
func (g *shape1646) What() string              { return "shape" }
func (g *shape1646) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1647 struct {
	F0 tok.Rule `name:"a0"`
	tok.Rule
	F2 tok.Rule `name:"2x"`
}

func (g *shape1647) Read(s *tok.Scanner) error { return nil }
func (g *shape1647) What() string              { return "shape" }
func (g *shape1647) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

type shape1648 struct {
	f0 tok.Rule `name:"a0"`
	tok.Rule
	F2 tok.Rule `name:"a2"`
}

func (g *shape1648) Read(s *tok.Scanner) error { return nil }
func (g *shape1648) What() string              { return "shape" }
func (g *shape1648) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

var shapes = []shape{
	{func() tok.Grammar { return &shape0{} }, []shapeField{}},
	{func() tok.Grammar { return &shape1{} }, []shapeField{{"F0", true, "a0"}}},
	{func() tok.Grammar { return &shape2{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape3{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape4{} }, []shapeField{{"F0", true, "0x"}}},
	{func() tok.Grammar { return &shape5{} }, []shapeField{{"F0", true, "a0 "}}},
	{func() tok.Grammar { return &shape6{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape7{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}}},
	{func() tok.Grammar { return &shape8{} }, []shapeField{{"f0", false, ""}}},
	{func() tok.Grammar { return &shape9{} }, []shapeField{{"f0", false, ""}}},
	{func() tok.Grammar { return &shape10{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape11{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape12{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape13{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape14{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape15{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape16{} }, []shapeField{{"F0", false, ""}}},
	{func() tok.Grammar { return &shape17{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape18{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape19{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape20{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape21{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape22{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape23{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape24{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape25{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape26{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape27{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape28{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape29{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape30{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape31{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape32{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape33{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape34{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape35{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape36{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape37{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape38{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape39{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape40{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape41{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape42{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape43{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape44{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape45{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape46{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape47{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape48{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape49{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape50{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape51{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape52{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape53{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape54{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape55{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape56{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape57{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape58{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape59{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape60{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape61{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape62{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape63{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape64{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape65{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape66{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape67{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape68{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape69{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape70{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape71{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape72{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape73{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape74{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape75{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape76{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape77{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape78{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape79{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape80{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape81{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape82{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape83{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape84{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape85{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape86{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape87{} }, []shapeField{{"F0", true, "a0 "}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape88{} }, []shapeField{{"F0", true, "a0 "}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape89{} }, []shapeField{{"F0", true, "a0 "}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape90{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape91{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape92{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape93{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape94{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape95{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape96{} }, []shapeField{{"F0", true, "a0 "}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape97{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape98{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape99{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape100{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape101{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape102{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape103{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape104{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape105{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape106{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape107{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape108{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape109{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape110{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape111{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape112{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape113{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape114{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape115{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape116{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape117{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape118{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape119{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape120{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape121{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape122{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape123{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape124{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape125{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape126{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape127{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape128{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape129{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape130{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape131{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape132{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape133{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape134{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape135{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape136{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape137{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape138{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape139{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape140{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape141{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape142{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape143{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape144{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape145{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape146{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape147{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape148{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape149{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape150{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape151{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape152{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape153{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape154{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape155{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape156{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape157{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape158{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape159{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape160{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape161{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape162{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape163{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape164{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape165{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape166{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape167{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape168{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape169{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape170{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape171{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape172{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape173{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape174{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape175{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape176{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape177{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape178{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape179{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape180{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape181{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape182{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape183{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape184{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape185{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape186{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape187{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape188{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape189{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape190{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape191{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape192{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape193{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape194{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape195{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape196{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape197{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape198{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape199{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape200{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape201{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape202{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape203{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape204{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape205{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape206{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape207{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape208{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape209{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape210{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape211{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape212{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape213{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape214{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape215{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape216{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape217{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape218{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape219{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape220{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape221{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape222{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape223{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape224{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape225{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape226{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape227{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape228{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape229{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape230{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape231{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape232{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape233{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape234{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape235{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape236{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape237{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape238{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape239{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape240{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape241{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape242{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape243{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape244{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape245{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape246{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape247{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape248{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape249{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape250{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape251{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape252{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape253{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape254{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape255{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape256{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape257{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape258{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape259{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape260{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}}},
	{func() tok.Grammar { return &shape261{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1 "}}},
	{func() tok.Grammar { return &shape262{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}}},
	{func() tok.Grammar { return &shape263{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}}},
	{func() tok.Grammar { return &shape264{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape265{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}}},
	{func() tok.Grammar { return &shape266{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape267{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape268{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape269{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape270{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape271{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape272{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}}},
	{func() tok.Grammar { return &shape273{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape274{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape275{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape276{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape277{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape278{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape279{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape280{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape281{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape282{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape283{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape284{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape285{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape286{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape287{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape288{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape289{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape290{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape291{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape292{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape293{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape294{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape295{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape296{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape297{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape298{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape299{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape300{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape301{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape302{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape303{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape304{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape305{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape306{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape307{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape308{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape309{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape310{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape311{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape312{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape313{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape314{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape315{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape316{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape317{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape318{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape319{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape320{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape321{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape322{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape323{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape324{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape325{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape326{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape327{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape328{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape329{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape330{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape331{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape332{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape333{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape334{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape335{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape336{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape337{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape338{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape339{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape340{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape341{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape342{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape343{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape344{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape345{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape346{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape347{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape348{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape349{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape350{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape351{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape352{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape353{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape354{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape355{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape356{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape357{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape358{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape359{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape360{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape361{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape362{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape363{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape364{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape365{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape366{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape367{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape368{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape369{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape370{} }, []shapeField{{"F0", true, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape371{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape372{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape373{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape374{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape375{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape376{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape377{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape378{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape379{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape380{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape381{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape382{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape383{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape384{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape385{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape386{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape387{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape388{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape389{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape390{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape391{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape392{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape393{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape394{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape395{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape396{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape397{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape398{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape399{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape400{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape401{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape402{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape403{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape404{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape405{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape406{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape407{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape408{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape409{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape410{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape411{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape412{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape413{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape414{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape415{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape416{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape417{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape418{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape419{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape420{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape421{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape422{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape423{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape424{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape425{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape426{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape427{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape428{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape429{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape430{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape431{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape432{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape433{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape434{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape435{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape436{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape437{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape438{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape439{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape440{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape441{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape442{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape443{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape444{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape445{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape446{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape447{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape448{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape449{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape450{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape451{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape452{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape453{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape454{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape455{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape456{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape457{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape458{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape459{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape460{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape461{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape462{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape463{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape464{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape465{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape466{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape467{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape468{} }, []shapeField{{"f0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape469{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape470{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape471{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape472{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape473{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape474{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape475{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape476{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape477{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape478{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape479{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape480{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape481{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape482{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape483{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape484{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape485{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape486{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape487{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape488{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape489{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape490{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape491{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape492{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape493{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape494{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape495{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape496{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape497{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape498{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape499{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape500{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape501{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape502{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape503{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape504{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape505{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape506{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape507{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape508{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape509{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape510{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape511{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape512{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape513{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape514{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape515{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape516{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape517{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape518{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape519{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape520{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape521{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape522{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape523{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape524{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape525{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape526{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape527{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape528{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape529{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape530{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape531{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape532{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape533{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape534{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape535{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape536{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape537{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape538{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape539{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape540{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape541{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape542{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape543{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape544{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape545{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape546{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape547{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape548{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape549{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape550{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape551{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape552{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape553{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape554{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape555{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape556{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape557{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape558{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape559{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape560{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape561{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape562{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape563{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape564{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape565{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape566{} }, []shapeField{{"F0", false, ""}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape567{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape568{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape569{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape570{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape571{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape572{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape573{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "a1"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape574{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape575{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape576{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape577{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape578{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape579{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape580{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape581{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape582{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape583{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape584{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape585{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape586{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape587{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "1x"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape588{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape589{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape590{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape591{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape592{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape593{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape594{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"f1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape595{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape596{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape597{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape598{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape599{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape600{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape601{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape602{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape603{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape604{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape605{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape606{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape607{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape608{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", false, ""}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape609{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape610{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, ""}}},
	{func() tok.Grammar { return &shape611{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape612{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"f2", false, ""}}},
	{func() tok.Grammar { return &shape613{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape614{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"F2", false, ""}}},
	{func() tok.Grammar { return &shape615{} }, []shapeField{{"F0", true, "B0.c-d_e+f"}, {"F1", true, "B1.c-d_e+f"}, {"F2", true, "B2.c-d_e+f"}}},
	{func() tok.Grammar { return &shape616{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape617{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape618{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape619{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape620{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}}},
	{func() tok.Grammar { return &shape621{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}}},
	{func() tok.Grammar { return &shape622{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape623{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape624{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape625{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}}},
	{func() tok.Grammar { return &shape626{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}}},
	{func() tok.Grammar { return &shape627{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape628{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape629{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape630{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}}},
	{func() tok.Grammar { return &shape631{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}}},
	{func() tok.Grammar { return &shape632{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape633{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape634{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape635{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}}},
	{func() tok.Grammar { return &shape636{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}}},
	{func() tok.Grammar { return &shape637{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape638{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape639{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}}},
	{func() tok.Grammar { return &shape640{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}}},
	{func() tok.Grammar { return &shape641{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}}},
	{func() tok.Grammar { return &shape642{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape643{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape644{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape645{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape646{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape647{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}}},
	{func() tok.Grammar { return &shape648{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape649{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape650{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape651{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape652{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape653{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}}},
	{func() tok.Grammar { return &shape654{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape655{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape656{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape657{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape658{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape659{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}}},
	{func() tok.Grammar { return &shape660{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape661{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape662{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape663{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape664{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape665{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}}},
	{func() tok.Grammar { return &shape666{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape667{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape668{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape669{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape670{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape671{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}}},
	{func() tok.Grammar { return &shape672{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}}},
	{func() tok.Grammar { return &shape673{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape674{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape675{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape676{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape677{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape678{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape679{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape680{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape681{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape682{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape683{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape684{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape685{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape686{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape687{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape688{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape689{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape690{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape691{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape692{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape693{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape694{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape695{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape696{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape697{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape698{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape699{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape700{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape701{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape702{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape703{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape704{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape705{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape706{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape707{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape708{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape709{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape710{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape711{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape712{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape713{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape714{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape715{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape716{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, ""}}},
	{func() tok.Grammar { return &shape717{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape718{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape719{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape720{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape721{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape722{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape723{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape724{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "6x"}}},
	{func() tok.Grammar { return &shape725{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape726{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape727{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape728{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape729{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape730{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape731{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape732{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"f6", false, ""}}},
	{func() tok.Grammar { return &shape733{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape734{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape735{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape736{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape737{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape738{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape739{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape740{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", false, ""}}},
	{func() tok.Grammar { return &shape741{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape742{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape743{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape744{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape745{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape746{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape747{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape748{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, ""}}},
	{func() tok.Grammar { return &shape749{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}}},
	{func() tok.Grammar { return &shape750{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape751{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape752{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape753{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape754{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape755{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape756{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape757{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, ""}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape758{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, ""}}},
	{func() tok.Grammar { return &shape759{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}}},
	{func() tok.Grammar { return &shape760{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape761{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape762{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape763{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape764{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape765{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape766{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "6x"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape767{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "7x"}}},
	{func() tok.Grammar { return &shape768{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "7x"}}},
	{func() tok.Grammar { return &shape769{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape770{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape771{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape772{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape773{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape774{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape775{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"f6", false, ""}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape776{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"f7", false, ""}}},
	{func() tok.Grammar { return &shape777{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"f7", false, ""}}},
	{func() tok.Grammar { return &shape778{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape779{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape780{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape781{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape782{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape783{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape784{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", false, ""}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape785{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", false, ""}}},
	{func() tok.Grammar { return &shape786{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", false, ""}}},
	{func() tok.Grammar { return &shape787{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape788{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape789{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape790{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape791{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape792{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape793{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, ""}, {"F7", true, "a7"}}},
	{func() tok.Grammar { return &shape794{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, ""}}},
	{func() tok.Grammar { return &shape795{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}}},
	{func() tok.Grammar { return &shape796{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape797{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape798{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape799{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape800{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, ""}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape801{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, ""}}},
	{func() tok.Grammar { return &shape802{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}}},
	{func() tok.Grammar { return &shape803{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape804{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape805{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape806{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "8x"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape807{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "9x"}}},
	{func() tok.Grammar { return &shape808{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "7x"}, {"F8", true, "a8"}, {"F9", true, "9x"}}},
	{func() tok.Grammar { return &shape809{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape810{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape811{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape812{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"f8", false, ""}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape813{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"f9", false, ""}}},
	{func() tok.Grammar { return &shape814{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"f7", false, ""}, {"F8", true, "a8"}, {"f9", false, ""}}},
	{func() tok.Grammar { return &shape815{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape816{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape817{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape818{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", false, ""}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape819{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", false, ""}}},
	{func() tok.Grammar { return &shape820{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", false, ""}, {"F8", true, "a8"}, {"F9", false, ""}}},
	{func() tok.Grammar { return &shape821{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape822{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape823{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape824{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, ""}, {"F9", true, "a9"}}},
	{func() tok.Grammar { return &shape825{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, ""}}},
	{func() tok.Grammar { return &shape826{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}}},
	{func() tok.Grammar { return &shape827{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape828{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape829{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape830{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, ""}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape831{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, ""}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape832{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, ""}}},
	{func() tok.Grammar { return &shape833{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}}},
	{func() tok.Grammar { return &shape834{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape835{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape836{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "6x"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape837{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "10x"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape838{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "11x"}}},
	{func() tok.Grammar { return &shape839{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "7x"}, {"F8", true, "a8"}, {"F9", true, "9x"}, {"F10", true, "a10"}, {"F11", true, "11x"}}},
	{func() tok.Grammar { return &shape840{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape841{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape842{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"f6", false, ""}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape843{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"f10", false, ""}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape844{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"f11", false, ""}}},
	{func() tok.Grammar { return &shape845{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"f7", false, ""}, {"F8", true, "a8"}, {"f9", false, ""}, {"F10", true, "a10"}, {"f11", false, ""}}},
	{func() tok.Grammar { return &shape846{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape847{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape848{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", false, ""}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape849{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", false, ""}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape850{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", false, ""}}},
	{func() tok.Grammar { return &shape851{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", false, ""}, {"F8", true, "a8"}, {"F9", false, ""}, {"F10", true, "a10"}, {"F11", false, ""}}},
	{func() tok.Grammar { return &shape852{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape853{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape854{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, ""}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape855{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, ""}, {"F11", true, "a11"}}},
	{func() tok.Grammar { return &shape856{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, ""}}},
	{func() tok.Grammar { return &shape857{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}}},
	{func() tok.Grammar { return &shape858{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape859{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape860{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape861{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, ""}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape862{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, ""}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape863{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, ""}}},
	{func() tok.Grammar { return &shape864{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}, {"F12", true, "a12"}, {"F13", true, ""}, {"F14", true, "a14"}, {"F15", true, ""}}},
	{func() tok.Grammar { return &shape865{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape866{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape867{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "8x"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape868{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "14x"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape869{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "15x"}}},
	{func() tok.Grammar { return &shape870{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "7x"}, {"F8", true, "a8"}, {"F9", true, "9x"}, {"F10", true, "a10"}, {"F11", true, "11x"}, {"F12", true, "a12"}, {"F13", true, "13x"}, {"F14", true, "a14"}, {"F15", true, "15x"}}},
	{func() tok.Grammar { return &shape871{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape872{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape873{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"f8", false, ""}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape874{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"f14", false, ""}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape875{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"f15", false, ""}}},
	{func() tok.Grammar { return &shape876{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"f7", false, ""}, {"F8", true, "a8"}, {"f9", false, ""}, {"F10", true, "a10"}, {"f11", false, ""}, {"F12", true, "a12"}, {"f13", false, ""}, {"F14", true, "a14"}, {"f15", false, ""}}},
	{func() tok.Grammar { return &shape877{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape878{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape879{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", false, ""}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape880{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", false, ""}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape881{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", false, ""}}},
	{func() tok.Grammar { return &shape882{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", false, ""}, {"F8", true, "a8"}, {"F9", false, ""}, {"F10", true, "a10"}, {"F11", false, ""}, {"F12", true, "a12"}, {"F13", false, ""}, {"F14", true, "a14"}, {"F15", false, ""}}},
	{func() tok.Grammar { return &shape883{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape884{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape885{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, ""}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape886{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, ""}, {"F15", true, "a15"}}},
	{func() tok.Grammar { return &shape887{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, ""}}},
	{func() tok.Grammar { return &shape888{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}, {"F12", true, "a12"}, {"F13", true, ""}, {"F14", true, "a14"}, {"F15", true, ""}}},
	{func() tok.Grammar { return &shape889{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape890{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape891{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape892{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, ""}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape893{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, ""}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape894{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, ""}}},
	{func() tok.Grammar { return &shape895{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}, {"F12", true, "a12"}, {"F13", true, ""}, {"F14", true, "a14"}, {"F15", true, ""}, {"F16", true, "a16"}, {"F17", true, ""}, {"F18", true, "a18"}, {"F19", true, ""}}},
	{func() tok.Grammar { return &shape896{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape897{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape898{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "10x"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape899{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "18x"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape900{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "19x"}}},
	{func() tok.Grammar { return &shape901{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "7x"}, {"F8", true, "a8"}, {"F9", true, "9x"}, {"F10", true, "a10"}, {"F11", true, "11x"}, {"F12", true, "a12"}, {"F13", true, "13x"}, {"F14", true, "a14"}, {"F15", true, "15x"}, {"F16", true, "a16"}, {"F17", true, "17x"}, {"F18", true, "a18"}, {"F19", true, "19x"}}},
	{func() tok.Grammar { return &shape902{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape903{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape904{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"f10", false, ""}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape905{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"f18", false, ""}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape906{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"f19", false, ""}}},
	{func() tok.Grammar { return &shape907{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"f7", false, ""}, {"F8", true, "a8"}, {"f9", false, ""}, {"F10", true, "a10"}, {"f11", false, ""}, {"F12", true, "a12"}, {"f13", false, ""}, {"F14", true, "a14"}, {"f15", false, ""}, {"F16", true, "a16"}, {"f17", false, ""}, {"F18", true, "a18"}, {"f19", false, ""}}},
	{func() tok.Grammar { return &shape908{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape909{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape910{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", false, ""}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape911{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", false, ""}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape912{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", false, ""}}},
	{func() tok.Grammar { return &shape913{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", false, ""}, {"F8", true, "a8"}, {"F9", false, ""}, {"F10", true, "a10"}, {"F11", false, ""}, {"F12", true, "a12"}, {"F13", false, ""}, {"F14", true, "a14"}, {"F15", false, ""}, {"F16", true, "a16"}, {"F17", false, ""}, {"F18", true, "a18"}, {"F19", false, ""}}},
	{func() tok.Grammar { return &shape914{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape915{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape916{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, ""}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape917{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, ""}, {"F19", true, "a19"}}},
	{func() tok.Grammar { return &shape918{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, ""}}},
	{func() tok.Grammar { return &shape919{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}, {"F12", true, "a12"}, {"F13", true, ""}, {"F14", true, "a14"}, {"F15", true, ""}, {"F16", true, "a16"}, {"F17", true, ""}, {"F18", true, "a18"}, {"F19", true, ""}}},
	{func() tok.Grammar { return &shape920{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape921{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape922{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape923{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, ""}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape924{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, ""}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape925{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, ""}}},
	{func() tok.Grammar { return &shape926{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}, {"F12", true, "a12"}, {"F13", true, ""}, {"F14", true, "a14"}, {"F15", true, ""}, {"F16", true, "a16"}, {"F17", true, ""}, {"F18", true, "a18"}, {"F19", true, ""}, {"F20", true, "a20"}, {"F21", true, ""}, {"F22", true, "a22"}, {"F23", true, ""}, {"F24", true, "a24"}, {"F25", true, ""}, {"F26", true, "a26"}, {"F27", true, ""}, {"F28", true, "a28"}, {"F29", true, ""}, {"F30", true, "a30"}, {"F31", true, ""}}},
	{func() tok.Grammar { return &shape927{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape928{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape929{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "16x"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape930{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "30x"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape931{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "31x"}}},
	{func() tok.Grammar { return &shape932{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "5x"}, {"F6", true, "a6"}, {"F7", true, "7x"}, {"F8", true, "a8"}, {"F9", true, "9x"}, {"F10", true, "a10"}, {"F11", true, "11x"}, {"F12", true, "a12"}, {"F13", true, "13x"}, {"F14", true, "a14"}, {"F15", true, "15x"}, {"F16", true, "a16"}, {"F17", true, "17x"}, {"F18", true, "a18"}, {"F19", true, "19x"}, {"F20", true, "a20"}, {"F21", true, "21x"}, {"F22", true, "a22"}, {"F23", true, "23x"}, {"F24", true, "a24"}, {"F25", true, "25x"}, {"F26", true, "a26"}, {"F27", true, "27x"}, {"F28", true, "a28"}, {"F29", true, "29x"}, {"F30", true, "a30"}, {"F31", true, "31x"}}},
	{func() tok.Grammar { return &shape933{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape934{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape935{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"f16", false, ""}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape936{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"f30", false, ""}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape937{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"f31", false, ""}}},
	{func() tok.Grammar { return &shape938{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"f5", false, ""}, {"F6", true, "a6"}, {"f7", false, ""}, {"F8", true, "a8"}, {"f9", false, ""}, {"F10", true, "a10"}, {"f11", false, ""}, {"F12", true, "a12"}, {"f13", false, ""}, {"F14", true, "a14"}, {"f15", false, ""}, {"F16", true, "a16"}, {"f17", false, ""}, {"F18", true, "a18"}, {"f19", false, ""}, {"F20", true, "a20"}, {"f21", false, ""}, {"F22", true, "a22"}, {"f23", false, ""}, {"F24", true, "a24"}, {"f25", false, ""}, {"F26", true, "a26"}, {"f27", false, ""}, {"F28", true, "a28"}, {"f29", false, ""}, {"F30", true, "a30"}, {"f31", false, ""}}},
	{func() tok.Grammar { return &shape939{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape940{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape941{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", false, ""}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape942{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", false, ""}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape943{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", false, ""}}},
	{func() tok.Grammar { return &shape944{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", false, ""}, {"F6", true, "a6"}, {"F7", false, ""}, {"F8", true, "a8"}, {"F9", false, ""}, {"F10", true, "a10"}, {"F11", false, ""}, {"F12", true, "a12"}, {"F13", false, ""}, {"F14", true, "a14"}, {"F15", false, ""}, {"F16", true, "a16"}, {"F17", false, ""}, {"F18", true, "a18"}, {"F19", false, ""}, {"F20", true, "a20"}, {"F21", false, ""}, {"F22", true, "a22"}, {"F23", false, ""}, {"F24", true, "a24"}, {"F25", false, ""}, {"F26", true, "a26"}, {"F27", false, ""}, {"F28", true, "a28"}, {"F29", false, ""}, {"F30", true, "a30"}, {"F31", false, ""}}},
	{func() tok.Grammar { return &shape945{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape946{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape947{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, ""}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape948{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, ""}, {"F31", true, "a31"}}},
	{func() tok.Grammar { return &shape949{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}, {"F6", true, "a6"}, {"F7", true, "a7"}, {"F8", true, "a8"}, {"F9", true, "a9"}, {"F10", true, "a10"}, {"F11", true, "a11"}, {"F12", true, "a12"}, {"F13", true, "a13"}, {"F14", true, "a14"}, {"F15", true, "a15"}, {"F16", true, "a16"}, {"F17", true, "a17"}, {"F18", true, "a18"}, {"F19", true, "a19"}, {"F20", true, "a20"}, {"F21", true, "a21"}, {"F22", true, "a22"}, {"F23", true, "a23"}, {"F24", true, "a24"}, {"F25", true, "a25"}, {"F26", true, "a26"}, {"F27", true, "a27"}, {"F28", true, "a28"}, {"F29", true, "a29"}, {"F30", true, "a30"}, {"F31", true, ""}}},
	{func() tok.Grammar { return &shape950{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, ""}, {"F6", true, "a6"}, {"F7", true, ""}, {"F8", true, "a8"}, {"F9", true, ""}, {"F10", true, "a10"}, {"F11", true, ""}, {"F12", true, "a12"}, {"F13", true, ""}, {"F14", true, "a14"}, {"F15", true, ""}, {"F16", true, "a16"}, {"F17", true, ""}, {"F18", true, "a18"}, {"F19", true, ""}, {"F20", true, "a20"}, {"F21", true, ""}, {"F22", true, "a22"}, {"F23", true, ""}, {"F24", true, "a24"}, {"F25", true, ""}, {"F26", true, "a26"}, {"F27", true, ""}, {"F28", true, "a28"}, {"F29", true, ""}, {"F30", true, "a30"}, {"F31", true, ""}}},
	{func() tok.Grammar { return &shape951{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape952{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape953{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape954{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape955{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape956{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape957{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape958{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape959{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape960{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape961{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape962{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape963{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape964{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape965{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape966{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape967{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape968{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape969{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape970{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape971{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape972{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape973{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape974{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape975{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape976{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape977{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape978{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape979{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape980{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape981{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape982{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape983{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape984{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape985{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape986{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape987{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape988{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape989{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape990{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape991{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape992{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape993{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape994{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape995{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape996{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape997{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape998{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape999{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1000{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1001{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1002{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1003{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1004{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1005{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1006{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1007{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1008{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1009{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1010{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1011{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1012{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1013{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1014{} }, []shapeField{{"F0", true, "0x"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1015{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1016{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1017{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1018{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1019{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1020{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1021{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1022{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1023{} }, []shapeField{{"F0", true, "0x"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1024{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1025{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1026{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1027{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1028{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1029{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1030{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1031{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1032{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1033{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1034{} }, []shapeField{{"F0", true, "0x"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1035{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1036{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1037{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1038{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1039{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1040{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1041{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1042{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1043{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1044{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1045{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1046{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1047{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1048{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1049{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1050{} }, []shapeField{{"f0", false, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1051{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1052{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1053{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1054{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1055{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1056{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1057{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1058{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1059{} }, []shapeField{{"f0", false, ""}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1060{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1061{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1062{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1063{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1064{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1065{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1066{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1067{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1068{} }, []shapeField{{"f0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1069{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1070{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1071{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1072{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1073{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1074{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1075{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1076{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1077{} }, []shapeField{{"f0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1078{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1079{} }, []shapeField{{"f0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1080{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1081{} }, []shapeField{{"F0", true, "a0"}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1082{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1083{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1084{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1085{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1086{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1087{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1088{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1089{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1090{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1091{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1092{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1093{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1094{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1095{} }, []shapeField{{"F0", false, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1096{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1097{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1098{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1099{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1100{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1101{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1102{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1103{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1104{} }, []shapeField{{"F0", false, ""}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1105{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1106{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1107{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1108{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1109{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1110{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1111{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1112{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1113{} }, []shapeField{{"F0", false, ""}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1114{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1115{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1116{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1117{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1118{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1119{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1120{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1121{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1122{} }, []shapeField{{"F0", false, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1123{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1124{} }, []shapeField{{"F0", false, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1125{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1126{} }, []shapeField{{"F0", true, "a0"}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1127{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1128{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1129{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1130{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1131{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1132{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1133{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1134{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1135{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1136{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1137{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1138{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1139{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1140{} }, []shapeField{{"F0", true, ""}, {"F1", true, "1x"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1141{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1142{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1143{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "2x"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1144{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1145{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "3x"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1146{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1147{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "4x"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1148{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "5x"}}},
	{func() tok.Grammar { return &shape1149{} }, []shapeField{{"F0", true, ""}, {"f1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1150{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1151{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1152{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"f2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1153{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1154{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"f3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1155{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1156{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"f4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1157{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"f5", false, ""}}},
	{func() tok.Grammar { return &shape1158{} }, []shapeField{{"F0", true, ""}, {"F1", false, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1159{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1160{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1161{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", false, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1162{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1163{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", false, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1164{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1165{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", false, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1166{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", false, ""}}},
	{func() tok.Grammar { return &shape1167{} }, []shapeField{{"F0", true, ""}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1168{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1169{} }, []shapeField{{"F0", true, ""}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1170{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1171{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, ""}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1172{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, ""}, {"F4", true, "a4"}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1173{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, ""}, {"F3", true, "a3"}, {"F4", true, "a4"}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1174{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, ""}, {"F4", true, ""}, {"F5", true, "a5"}}},
	{func() tok.Grammar { return &shape1175{} }, []shapeField{{"F0", true, "a0"}, {"F1", true, "a1"}, {"F2", true, "a2"}, {"F3", true, "a3"}, {"F4", true, ""}, {"F5", true, ""}}},
	{func() tok.Grammar { return &shape1176{} }, []shapeField{{"F0", true, "a\x00b"}}},
	{func() tok.Grammar { return &shape1177{} }, []shapeField{{"F0", true, "a\x01b"}}},
	{func() tok.Grammar { return &shape1178{} }, []shapeField{{"F0", true, "a\x02b"}}},
	{func() tok.Grammar { return &shape1179{} }, []shapeField{{"F0", true, "a\x03b"}}},
	{func() tok.Grammar { return &shape1180{} }, []shapeField{{"F0", true, "a\x04b"}}},
	{func() tok.Grammar { return &shape1181{} }, []shapeField{{"F0", true, "a\x05b"}}},
	{func() tok.Grammar { return &shape1182{} }, []shapeField{{"F0", true, "a\x06b"}}},
	{func() tok.Grammar { return &shape1183{} }, []shapeField{{"F0", true, "a\x07b"}}},
	{func() tok.Grammar { return &shape1184{} }, []shapeField{{"F0", true, "a\x08b"}}},
	{func() tok.Grammar { return &shape1185{} }, []shapeField{{"F0", true, "a\x09b"}}},
	{func() tok.Grammar { return &shape1186{} }, []shapeField{{"F0", true, "a\x0ab"}}},
	{func() tok.Grammar { return &shape1187{} }, []shapeField{{"F0", true, "a\x0bb"}}},
	{func() tok.Grammar { return &shape1188{} }, []shapeField{{"F0", true, "a\x0cb"}}},
	{func() tok.Grammar { return &shape1189{} }, []shapeField{{"F0", true, "a\x0db"}}},
	{func() tok.Grammar { return &shape1190{} }, []shapeField{{"F0", true, "a\x0eb"}}},
	{func() tok.Grammar { return &shape1191{} }, []shapeField{{"F0", true, "a\x0fb"}}},
	{func() tok.Grammar { return &shape1192{} }, []shapeField{{"F0", true, "a\x10b"}}},
	{func() tok.Grammar { return &shape1193{} }, []shapeField{{"F0", true, "a\x11b"}}},
	{func() tok.Grammar { return &shape1194{} }, []shapeField{{"F0", true, "a\x12b"}}},
	{func() tok.Grammar { return &shape1195{} }, []shapeField{{"F0", true, "a\x13b"}}},
	{func() tok.Grammar { return &shape1196{} }, []shapeField{{"F0", true, "a\x14b"}}},
	{func() tok.Grammar { return &shape1197{} }, []shapeField{{"F0", true, "a\x15b"}}},
	{func() tok.Grammar { return &shape1198{} }, []shapeField{{"F0", true, "a\x16b"}}},
	{func() tok.Grammar { return &shape1199{} }, []shapeField{{"F0", true, "a\x17b"}}},
	{func() tok.Grammar { return &shape1200{} }, []shapeField{{"F0", true, "a\x18b"}}},
	{func() tok.Grammar { return &shape1201{} }, []shapeField{{"F0", true, "a\x19b"}}},
	{func() tok.Grammar { return &shape1202{} }, []shapeField{{"F0", true, "a\x1ab"}}},
	{func() tok.Grammar { return &shape1203{} }, []shapeField{{"F0", true, "a\x1bb"}}},
	{func() tok.Grammar { return &shape1204{} }, []shapeField{{"F0", true, "a\x1cb"}}},
	{func() tok.Grammar { return &shape1205{} }, []shapeField{{"F0", true, "a\x1db"}}},
	{func() tok.Grammar { return &shape1206{} }, []shapeField{{"F0", true, "a\x1eb"}}},
	{func() tok.Grammar { return &shape1207{} }, []shapeField{{"F0", true, "a\x1fb"}}},
	{func() tok.Grammar { return &shape1208{} }, []shapeField{{"F0", true, "a\x20b"}}},
	{func() tok.Grammar { return &shape1209{} }, []shapeField{{"F0", true, "\x20b"}}},
	{func() tok.Grammar { return &shape1210{} }, []shapeField{{"F0", true, "a\x20"}}},
	{func() tok.Grammar { return &shape1211{} }, []shapeField{{"F0", true, "a\x21b"}}},
	{func() tok.Grammar { return &shape1212{} }, []shapeField{{"F0", true, "\x21b"}}},
	{func() tok.Grammar { return &shape1213{} }, []shapeField{{"F0", true, "a\x21"}}},
	{func() tok.Grammar { return &shape1214{} }, []shapeField{{"F0", true, "a\x22b"}}},
	{func() tok.Grammar { return &shape1215{} }, []shapeField{{"F0", true, "\x22b"}}},
	{func() tok.Grammar { return &shape1216{} }, []shapeField{{"F0", true, "a\x22"}}},
	{func() tok.Grammar { return &shape1217{} }, []shapeField{{"F0", true, "a\x23b"}}},
	{func() tok.Grammar { return &shape1218{} }, []shapeField{{"F0", true, "\x23b"}}},
	{func() tok.Grammar { return &shape1219{} }, []shapeField{{"F0", true, "a\x23"}}},
	{func() tok.Grammar { return &shape1220{} }, []shapeField{{"F0", true, "a\x24b"}}},
	{func() tok.Grammar { return &shape1221{} }, []shapeField{{"F0", true, "\x24b"}}},
	{func() tok.Grammar { return &shape1222{} }, []shapeField{{"F0", true, "a\x24"}}},
	{func() tok.Grammar { return &shape1223{} }, []shapeField{{"F0", true, "a\x25b"}}},
	{func() tok.Grammar { return &shape1224{} }, []shapeField{{"F0", true, "\x25b"}}},
	{func() tok.Grammar { return &shape1225{} }, []shapeField{{"F0", true, "a\x25"}}},
	{func() tok.Grammar { return &shape1226{} }, []shapeField{{"F0", true, "a\x26b"}}},
	{func() tok.Grammar { return &shape1227{} }, []shapeField{{"F0", true, "\x26b"}}},
	{func() tok.Grammar { return &shape1228{} }, []shapeField{{"F0", true, "a\x26"}}},
	{func() tok.Grammar { return &shape1229{} }, []shapeField{{"F0", true, "a\x27b"}}},
	{func() tok.Grammar { return &shape1230{} }, []shapeField{{"F0", true, "\x27b"}}},
	{func() tok.Grammar { return &shape1231{} }, []shapeField{{"F0", true, "a\x27"}}},
	{func() tok.Grammar { return &shape1232{} }, []shapeField{{"F0", true, "a\x28b"}}},
	{func() tok.Grammar { return &shape1233{} }, []shapeField{{"F0", true, "\x28b"}}},
	{func() tok.Grammar { return &shape1234{} }, []shapeField{{"F0", true, "a\x28"}}},
	{func() tok.Grammar { return &shape1235{} }, []shapeField{{"F0", true, "a\x29b"}}},
	{func() tok.Grammar { return &shape1236{} }, []shapeField{{"F0", true, "\x29b"}}},
	{func() tok.Grammar { return &shape1237{} }, []shapeField{{"F0", true, "a\x29"}}},
	{func() tok.Grammar { return &shape1238{} }, []shapeField{{"F0", true, "a\x2ab"}}},
	{func() tok.Grammar { return &shape1239{} }, []shapeField{{"F0", true, "\x2ab"}}},
	{func() tok.Grammar { return &shape1240{} }, []shapeField{{"F0", true, "a\x2a"}}},
	{func() tok.Grammar { return &shape1241{} }, []shapeField{{"F0", true, "a\x2bb"}}},
	{func() tok.Grammar { return &shape1242{} }, []shapeField{{"F0", true, "\x2bb"}}},
	{func() tok.Grammar { return &shape1243{} }, []shapeField{{"F0", true, "a\x2b"}}},
	{func() tok.Grammar { return &shape1244{} }, []shapeField{{"F0", true, "a\x2cb"}}},
	{func() tok.Grammar { return &shape1245{} }, []shapeField{{"F0", true, "\x2cb"}}},
	{func() tok.Grammar { return &shape1246{} }, []shapeField{{"F0", true, "a\x2c"}}},
	{func() tok.Grammar { return &shape1247{} }, []shapeField{{"F0", true, "a\x2db"}}},
	{func() tok.Grammar { return &shape1248{} }, []shapeField{{"F0", true, "\x2db"}}},
	{func() tok.Grammar { return &shape1249{} }, []shapeField{{"F0", true, "a\x2d"}}},
	{func() tok.Grammar { return &shape1250{} }, []shapeField{{"F0", true, "a\x2eb"}}},
	{func() tok.Grammar { return &shape1251{} }, []shapeField{{"F0", true, "\x2eb"}}},
	{func() tok.Grammar { return &shape1252{} }, []shapeField{{"F0", true, "a\x2e"}}},
	{func() tok.Grammar { return &shape1253{} }, []shapeField{{"F0", true, "a\x2fb"}}},
	{func() tok.Grammar { return &shape1254{} }, []shapeField{{"F0", true, "\x2fb"}}},
	{func() tok.Grammar { return &shape1255{} }, []shapeField{{"F0", true, "a\x2f"}}},
	{func() tok.Grammar { return &shape1256{} }, []shapeField{{"F0", true, "a\x30b"}}},
	{func() tok.Grammar { return &shape1257{} }, []shapeField{{"F0", true, "\x30b"}}},
	{func() tok.Grammar { return &shape1258{} }, []shapeField{{"F0", true, "a\x30"}}},
	{func() tok.Grammar { return &shape1259{} }, []shapeField{{"F0", true, "a\x31b"}}},
	{func() tok.Grammar { return &shape1260{} }, []shapeField{{"F0", true, "\x31b"}}},
	{func() tok.Grammar { return &shape1261{} }, []shapeField{{"F0", true, "a\x31"}}},
	{func() tok.Grammar { return &shape1262{} }, []shapeField{{"F0", true, "a\x32b"}}},
	{func() tok.Grammar { return &shape1263{} }, []shapeField{{"F0", true, "\x32b"}}},
	{func() tok.Grammar { return &shape1264{} }, []shapeField{{"F0", true, "a\x32"}}},
	{func() tok.Grammar { return &shape1265{} }, []shapeField{{"F0", true, "a\x33b"}}},
	{func() tok.Grammar { return &shape1266{} }, []shapeField{{"F0", true, "\x33b"}}},
	{func() tok.Grammar { return &shape1267{} }, []shapeField{{"F0", true, "a\x33"}}},
	{func() tok.Grammar { return &shape1268{} }, []shapeField{{"F0", true, "a\x34b"}}},
	{func() tok.Grammar { return &shape1269{} }, []shapeField{{"F0", true, "\x34b"}}},
	{func() tok.Grammar { return &shape1270{} }, []shapeField{{"F0", true, "a\x34"}}},
	{func() tok.Grammar { return &shape1271{} }, []shapeField{{"F0", true, "a\x35b"}}},
	{func() tok.Grammar { return &shape1272{} }, []shapeField{{"F0", true, "\x35b"}}},
	{func() tok.Grammar { return &shape1273{} }, []shapeField{{"F0", true, "a\x35"}}},
	{func() tok.Grammar { return &shape1274{} }, []shapeField{{"F0", true, "a\x36b"}}},
	{func() tok.Grammar { return &shape1275{} }, []shapeField{{"F0", true, "\x36b"}}},
	{func() tok.Grammar { return &shape1276{} }, []shapeField{{"F0", true, "a\x36"}}},
	{func() tok.Grammar { return &shape1277{} }, []shapeField{{"F0", true, "a\x37b"}}},
	{func() tok.Grammar { return &shape1278{} }, []shapeField{{"F0", true, "\x37b"}}},
	{func() tok.Grammar { return &shape1279{} }, []shapeField{{"F0", true, "a\x37"}}},
	{func() tok.Grammar { return &shape1280{} }, []shapeField{{"F0", true, "a\x38b"}}},
	{func() tok.Grammar { return &shape1281{} }, []shapeField{{"F0", true, "\x38b"}}},
	{func() tok.Grammar { return &shape1282{} }, []shapeField{{"F0", true, "a\x38"}}},
	{func() tok.Grammar { return &shape1283{} }, []shapeField{{"F0", true, "a\x39b"}}},
	{func() tok.Grammar { return &shape1284{} }, []shapeField{{"F0", true, "\x39b"}}},
	{func() tok.Grammar { return &shape1285{} }, []shapeField{{"F0", true, "a\x39"}}},
	{func() tok.Grammar { return &shape1286{} }, []shapeField{{"F0", true, "a\x3ab"}}},
	{func() tok.Grammar { return &shape1287{} }, []shapeField{{"F0", true, "\x3ab"}}},
	{func() tok.Grammar { return &shape1288{} }, []shapeField{{"F0", true, "a\x3a"}}},
	{func() tok.Grammar { return &shape1289{} }, []shapeField{{"F0", true, "a\x3bb"}}},
	{func() tok.Grammar { return &shape1290{} }, []shapeField{{"F0", true, "\x3bb"}}},
	{func() tok.Grammar { return &shape1291{} }, []shapeField{{"F0", true, "a\x3b"}}},
	{func() tok.Grammar { return &shape1292{} }, []shapeField{{"F0", true, "a\x3cb"}}},
	{func() tok.Grammar { return &shape1293{} }, []shapeField{{"F0", true, "\x3cb"}}},
	{func() tok.Grammar { return &shape1294{} }, []shapeField{{"F0", true, "a\x3c"}}},
	{func() tok.Grammar { return &shape1295{} }, []shapeField{{"F0", true, "a\x3db"}}},
	{func() tok.Grammar { return &shape1296{} }, []shapeField{{"F0", true, "\x3db"}}},
	{func() tok.Grammar { return &shape1297{} }, []shapeField{{"F0", true, "a\x3d"}}},
	{func() tok.Grammar { return &shape1298{} }, []shapeField{{"F0", true, "a\x3eb"}}},
	{func() tok.Grammar { return &shape1299{} }, []shapeField{{"F0", true, "\x3eb"}}},
	{func() tok.Grammar { return &shape1300{} }, []shapeField{{"F0", true, "a\x3e"}}},
	{func() tok.Grammar { return &shape1301{} }, []shapeField{{"F0", true, "a\x3fb"}}},
	{func() tok.Grammar { return &shape1302{} }, []shapeField{{"F0", true, "\x3fb"}}},
	{func() tok.Grammar { return &shape1303{} }, []shapeField{{"F0", true, "a\x3f"}}},
	{func() tok.Grammar { return &shape1304{} }, []shapeField{{"F0", true, "a\x40b"}}},
	{func() tok.Grammar { return &shape1305{} }, []shapeField{{"F0", true, "\x40b"}}},
	{func() tok.Grammar { return &shape1306{} }, []shapeField{{"F0", true, "a\x40"}}},
	{func() tok.Grammar { return &shape1307{} }, []shapeField{{"F0", true, "a\x41b"}}},
	{func() tok.Grammar { return &shape1308{} }, []shapeField{{"F0", true, "\x41b"}}},
	{func() tok.Grammar { return &shape1309{} }, []shapeField{{"F0", true, "a\x41"}}},
	{func() tok.Grammar { return &shape1310{} }, []shapeField{{"F0", true, "a\x42b"}}},
	{func() tok.Grammar { return &shape1311{} }, []shapeField{{"F0", true, "\x42b"}}},
	{func() tok.Grammar { return &shape1312{} }, []shapeField{{"F0", true, "a\x42"}}},
	{func() tok.Grammar { return &shape1313{} }, []shapeField{{"F0", true, "a\x43b"}}},
	{func() tok.Grammar { return &shape1314{} }, []shapeField{{"F0", true, "\x43b"}}},
	{func() tok.Grammar { return &shape1315{} }, []shapeField{{"F0", true, "a\x43"}}},
	{func() tok.Grammar { return &shape1316{} }, []shapeField{{"F0", true, "a\x44b"}}},
	{func() tok.Grammar { return &shape1317{} }, []shapeField{{"F0", true, "\x44b"}}},
	{func() tok.Grammar { return &shape1318{} }, []shapeField{{"F0", true, "a\x44"}}},
	{func() tok.Grammar { return &shape1319{} }, []shapeField{{"F0", true, "a\x45b"}}},
	{func() tok.Grammar { return &shape1320{} }, []shapeField{{"F0", true, "\x45b"}}},
	{func() tok.Grammar { return &shape1321{} }, []shapeField{{"F0", true, "a\x45"}}},
	{func() tok.Grammar { return &shape1322{} }, []shapeField{{"F0", true, "a\x46b"}}},
	{func() tok.Grammar { return &shape1323{} }, []shapeField{{"F0", true, "\x46b"}}},
	{func() tok.Grammar { return &shape1324{} }, []shapeField{{"F0", true, "a\x46"}}},
	{func() tok.Grammar { return &shape1325{} }, []shapeField{{"F0", true, "a\x47b"}}},
	{func() tok.Grammar { return &shape1326{} }, []shapeField{{"F0", true, "\x47b"}}},
	{func() tok.Grammar { return &shape1327{} }, []shapeField{{"F0", true, "a\x47"}}},
	{func() tok.Grammar { return &shape1328{} }, []shapeField{{"F0", true, "a\x48b"}}},
	{func() tok.Grammar { return &shape1329{} }, []shapeField{{"F0", true, "\x48b"}}},
	{func() tok.Grammar { return &shape1330{} }, []shapeField{{"F0", true, "a\x48"}}},
	{func() tok.Grammar { return &shape1331{} }, []shapeField{{"F0", true, "a\x49b"}}},
	{func() tok.Grammar { return &shape1332{} }, []shapeField{{"F0", true, "\x49b"}}},
	{func() tok.Grammar { return &shape1333{} }, []shapeField{{"F0", true, "a\x49"}}},
	{func() tok.Grammar { return &shape1334{} }, []shapeField{{"F0", true, "a\x4ab"}}},
	{func() tok.Grammar { return &shape1335{} }, []shapeField{{"F0", true, "\x4ab"}}},
	{func() tok.Grammar { return &shape1336{} }, []shapeField{{"F0", true, "a\x4a"}}},
	{func() tok.Grammar { return &shape1337{} }, []shapeField{{"F0", true, "a\x4bb"}}},
	{func() tok.Grammar { return &shape1338{} }, []shapeField{{"F0", true, "\x4bb"}}},
	{func() tok.Grammar { return &shape1339{} }, []shapeField{{"F0", true, "a\x4b"}}},
	{func() tok.Grammar { return &shape1340{} }, []shapeField{{"F0", true, "a\x4cb"}}},
	{func() tok.Grammar { return &shape1341{} }, []shapeField{{"F0", true, "\x4cb"}}},
	{func() tok.Grammar { return &shape1342{} }, []shapeField{{"F0", true, "a\x4c"}}},
	{func() tok.Grammar { return &shape1343{} }, []shapeField{{"F0", true, "a\x4db"}}},
	{func() tok.Grammar { return &shape1344{} }, []shapeField{{"F0", true, "\x4db"}}},
	{func() tok.Grammar { return &shape1345{} }, []shapeField{{"F0", true, "a\x4d"}}},
	{func() tok.Grammar { return &shape1346{} }, []shapeField{{"F0", true, "a\x4eb"}}},
	{func() tok.Grammar { return &shape1347{} }, []shapeField{{"F0", true, "\x4eb"}}},
	{func() tok.Grammar { return &shape1348{} }, []shapeField{{"F0", true, "a\x4e"}}},
	{func() tok.Grammar { return &shape1349{} }, []shapeField{{"F0", true, "a\x4fb"}}},
	{func() tok.Grammar { return &shape1350{} }, []shapeField{{"F0", true, "\x4fb"}}},
	{func() tok.Grammar { return &shape1351{} }, []shapeField{{"F0", true, "a\x4f"}}},
	{func() tok.Grammar { return &shape1352{} }, []shapeField{{"F0", true, "a\x50b"}}},
	{func() tok.Grammar { return &shape1353{} }, []shapeField{{"F0", true, "\x50b"}}},
	{func() tok.Grammar { return &shape1354{} }, []shapeField{{"F0", true, "a\x50"}}},
	{func() tok.Grammar { return &shape1355{} }, []shapeField{{"F0", true, "a\x51b"}}},
	{func() tok.Grammar { return &shape1356{} }, []shapeField{{"F0", true, "\x51b"}}},
	{func() tok.Grammar { return &shape1357{} }, []shapeField{{"F0", true, "a\x51"}}},
	{func() tok.Grammar { return &shape1358{} }, []shapeField{{"F0", true, "a\x52b"}}},
	{func() tok.Grammar { return &shape1359{} }, []shapeField{{"F0", true, "\x52b"}}},
	{func() tok.Grammar { return &shape1360{} }, []shapeField{{"F0", true, "a\x52"}}},
	{func() tok.Grammar { return &shape1361{} }, []shapeField{{"F0", true, "a\x53b"}}},
	{func() tok.Grammar { return &shape1362{} }, []shapeField{{"F0", true, "\x53b"}}},
	{func() tok.Grammar { return &shape1363{} }, []shapeField{{"F0", true, "a\x53"}}},
	{func() tok.Grammar { return &shape1364{} }, []shapeField{{"F0", true, "a\x54b"}}},
	{func() tok.Grammar { return &shape1365{} }, []shapeField{{"F0", true, "\x54b"}}},
	{func() tok.Grammar { return &shape1366{} }, []shapeField{{"F0", true, "a\x54"}}},
	{func() tok.Grammar { return &shape1367{} }, []shapeField{{"F0", true, "a\x55b"}}},
	{func() tok.Grammar { return &shape1368{} }, []shapeField{{"F0", true, "\x55b"}}},
	{func() tok.Grammar { return &shape1369{} }, []shapeField{{"F0", true, "a\x55"}}},
	{func() tok.Grammar { return &shape1370{} }, []shapeField{{"F0", true, "a\x56b"}}},
	{func() tok.Grammar { return &shape1371{} }, []shapeField{{"F0", true, "\x56b"}}},
	{func() tok.Grammar { return &shape1372{} }, []shapeField{{"F0", true, "a\x56"}}},
	{func() tok.Grammar { return &shape1373{} }, []shapeField{{"F0", true, "a\x57b"}}},
	{func() tok.Grammar { return &shape1374{} }, []shapeField{{"F0", true, "\x57b"}}},
	{func() tok.Grammar { return &shape1375{} }, []shapeField{{"F0", true, "a\x57"}}},
	{func() tok.Grammar { return &shape1376{} }, []shapeField{{"F0", true, "a\x58b"}}},
	{func() tok.Grammar { return &shape1377{} }, []shapeField{{"F0", true, "\x58b"}}},
	{func() tok.Grammar { return &shape1378{} }, []shapeField{{"F0", true, "a\x58"}}},
	{func() tok.Grammar { return &shape1379{} }, []shapeField{{"F0", true, "a\x59b"}}},
	{func() tok.Grammar { return &shape1380{} }, []shapeField{{"F0", true, "\x59b"}}},
	{func() tok.Grammar { return &shape1381{} }, []shapeField{{"F0", true, "a\x59"}}},
	{func() tok.Grammar { return &shape1382{} }, []shapeField{{"F0", true, "a\x5ab"}}},
	{func() tok.Grammar { return &shape1383{} }, []shapeField{{"F0", true, "\x5ab"}}},
	{func() tok.Grammar { return &shape1384{} }, []shapeField{{"F0", true, "a\x5a"}}},
	{func() tok.Grammar { return &shape1385{} }, []shapeField{{"F0", true, "a\x5bb"}}},
	{func() tok.Grammar { return &shape1386{} }, []shapeField{{"F0", true, "\x5bb"}}},
	{func() tok.Grammar { return &shape1387{} }, []shapeField{{"F0", true, "a\x5b"}}},
	{func() tok.Grammar { return &shape1388{} }, []shapeField{{"F0", true, "a\x5cb"}}},
	{func() tok.Grammar { return &shape1389{} }, []shapeField{{"F0", true, "\x5cb"}}},
	{func() tok.Grammar { return &shape1390{} }, []shapeField{{"F0", true, "a\x5c"}}},
	{func() tok.Grammar { return &shape1391{} }, []shapeField{{"F0", true, "a\x5db"}}},
	{func() tok.Grammar { return &shape1392{} }, []shapeField{{"F0", true, "\x5db"}}},
	{func() tok.Grammar { return &shape1393{} }, []shapeField{{"F0", true, "a\x5d"}}},
	{func() tok.Grammar { return &shape1394{} }, []shapeField{{"F0", true, "a\x5eb"}}},
	{func() tok.Grammar { return &shape1395{} }, []shapeField{{"F0", true, "\x5eb"}}},
	{func() tok.Grammar { return &shape1396{} }, []shapeField{{"F0", true, "a\x5e"}}},
	{func() tok.Grammar { return &shape1397{} }, []shapeField{{"F0", true, "a\x5fb"}}},
	{func() tok.Grammar { return &shape1398{} }, []shapeField{{"F0", true, "\x5fb"}}},
	{func() tok.Grammar { return &shape1399{} }, []shapeField{{"F0", true, "a\x5f"}}},
	{func() tok.Grammar { return &shape1400{} }, []shapeField{{"F0", true, "a\x60b"}}},
	{func() tok.Grammar { return &shape1401{} }, []shapeField{{"F0", true, "\x60b"}}},
	{func() tok.Grammar { return &shape1402{} }, []shapeField{{"F0", true, "a\x60"}}},
	{func() tok.Grammar { return &shape1403{} }, []shapeField{{"F0", true, "a\x61b"}}},
	{func() tok.Grammar { return &shape1404{} }, []shapeField{{"F0", true, "\x61b"}}},
	{func() tok.Grammar { return &shape1405{} }, []shapeField{{"F0", true, "a\x61"}}},
	{func() tok.Grammar { return &shape1406{} }, []shapeField{{"F0", true, "a\x62b"}}},
	{func() tok.Grammar { return &shape1407{} }, []shapeField{{"F0", true, "\x62b"}}},
	{func() tok.Grammar { return &shape1408{} }, []shapeField{{"F0", true, "a\x62"}}},
	{func() tok.Grammar { return &shape1409{} }, []shapeField{{"F0", true, "a\x63b"}}},
	{func() tok.Grammar { return &shape1410{} }, []shapeField{{"F0", true, "\x63b"}}},
	{func() tok.Grammar { return &shape1411{} }, []shapeField{{"F0", true, "a\x63"}}},
	{func() tok.Grammar { return &shape1412{} }, []shapeField{{"F0", true, "a\x64b"}}},
	{func() tok.Grammar { return &shape1413{} }, []shapeField{{"F0", true, "\x64b"}}},
	{func() tok.Grammar { return &shape1414{} }, []shapeField{{"F0", true, "a\x64"}}},
	{func() tok.Grammar { return &shape1415{} }, []shapeField{{"F0", true, "a\x65b"}}},
	{func() tok.Grammar { return &shape1416{} }, []shapeField{{"F0", true, "\x65b"}}},
	{func() tok.Grammar { return &shape1417{} }, []shapeField{{"F0", true, "a\x65"}}},
	{func() tok.Grammar { return &shape1418{} }, []shapeField{{"F0", true, "a\x66b"}}},
	{func() tok.Grammar { return &shape1419{} }, []shapeField{{"F0", true, "\x66b"}}},
	{func() tok.Grammar { return &shape1420{} }, []shapeField{{"F0", true, "a\x66"}}},
	{func() tok.Grammar { return &shape1421{} }, []shapeField{{"F0", true, "a\x67b"}}},
	{func() tok.Grammar { return &shape1422{} }, []shapeField{{"F0", true, "\x67b"}}},
	{func() tok.Grammar { return &shape1423{} }, []shapeField{{"F0", true, "a\x67"}}},
	{func() tok.Grammar { return &shape1424{} }, []shapeField{{"F0", true, "a\x68b"}}},
	{func() tok.Grammar { return &shape1425{} }, []shapeField{{"F0", true, "\x68b"}}},
	{func() tok.Grammar { return &shape1426{} }, []shapeField{{"F0", true, "a\x68"}}},
	{func() tok.Grammar { return &shape1427{} }, []shapeField{{"F0", true, "a\x69b"}}},
	{func() tok.Grammar { return &shape1428{} }, []shapeField{{"F0", true, "\x69b"}}},
	{func() tok.Grammar { return &shape1429{} }, []shapeField{{"F0", true, "a\x69"}}},
	{func() tok.Grammar { return &shape1430{} }, []shapeField{{"F0", true, "a\x6ab"}}},
	{func() tok.Grammar { return &shape1431{} }, []shapeField{{"F0", true, "\x6ab"}}},
	{func() tok.Grammar { return &shape1432{} }, []shapeField{{"F0", true, "a\x6a"}}},
	{func() tok.Grammar { return &shape1433{} }, []shapeField{{"F0", true, "a\x6bb"}}},
	{func() tok.Grammar { return &shape1434{} }, []shapeField{{"F0", true, "\x6bb"}}},
	{func() tok.Grammar { return &shape1435{} }, []shapeField{{"F0", true, "a\x6b"}}},
	{func() tok.Grammar { return &shape1436{} }, []shapeField{{"F0", true, "a\x6cb"}}},
	{func() tok.Grammar { return &shape1437{} }, []shapeField{{"F0", true, "\x6cb"}}},
	{func() tok.Grammar { return &shape1438{} }, []shapeField{{"F0", true, "a\x6c"}}},
	{func() tok.Grammar { return &shape1439{} }, []shapeField{{"F0", true, "a\x6db"}}},
	{func() tok.Grammar { return &shape1440{} }, []shapeField{{"F0", true, "\x6db"}}},
	{func() tok.Grammar { return &shape1441{} }, []shapeField{{"F0", true, "a\x6d"}}},
	{func() tok.Grammar { return &shape1442{} }, []shapeField{{"F0", true, "a\x6eb"}}},
	{func() tok.Grammar { return &shape1443{} }, []shapeField{{"F0", true, "\x6eb"}}},
	{func() tok.Grammar { return &shape1444{} }, []shapeField{{"F0", true, "a\x6e"}}},
	{func() tok.Grammar { return &shape1445{} }, []shapeField{{"F0", true, "a\x6fb"}}},
	{func() tok.Grammar { return &shape1446{} }, []shapeField{{"F0", true, "\x6fb"}}},
	{func() tok.Grammar { return &shape1447{} }, []shapeField{{"F0", true, "a\x6f"}}},
	{func() tok.Grammar { return &shape1448{} }, []shapeField{{"F0", true, "a\x70b"}}},
	{func() tok.Grammar { return &shape1449{} }, []shapeField{{"F0", true, "\x70b"}}},
	{func() tok.Grammar { return &shape1450{} }, []shapeField{{"F0", true, "a\x70"}}},
	{func() tok.Grammar { return &shape1451{} }, []shapeField{{"F0", true, "a\x71b"}}},
	{func() tok.Grammar { return &shape1452{} }, []shapeField{{"F0", true, "\x71b"}}},
	{func() tok.Grammar { return &shape1453{} }, []shapeField{{"F0", true, "a\x71"}}},
	{func() tok.Grammar { return &shape1454{} }, []shapeField{{"F0", true, "a\x72b"}}},
	{func() tok.Grammar { return &shape1455{} }, []shapeField{{"F0", true, "\x72b"}}},
	{func() tok.Grammar { return &shape1456{} }, []shapeField{{"F0", true, "a\x72"}}},
	{func() tok.Grammar { return &shape1457{} }, []shapeField{{"F0", true, "a\x73b"}}},
	{func() tok.Grammar { return &shape1458{} }, []shapeField{{"F0", true, "\x73b"}}},
	{func() tok.Grammar { return &shape1459{} }, []shapeField{{"F0", true, "a\x73"}}},
	{func() tok.Grammar { return &shape1460{} }, []shapeField{{"F0", true, "a\x74b"}}},
	{func() tok.Grammar { return &shape1461{} }, []shapeField{{"F0", true, "\x74b"}}},
	{func() tok.Grammar { return &shape1462{} }, []shapeField{{"F0", true, "a\x74"}}},
	{func() tok.Grammar { return &shape1463{} }, []shapeField{{"F0", true, "a\x75b"}}},
	{func() tok.Grammar { return &shape1464{} }, []shapeField{{"F0", true, "\x75b"}}},
	{func() tok.Grammar { return &shape1465{} }, []shapeField{{"F0", true, "a\x75"}}},
	{func() tok.Grammar { return &shape1466{} }, []shapeField{{"F0", true, "a\x76b"}}},
	{func() tok.Grammar { return &shape1467{} }, []shapeField{{"F0", true, "\x76b"}}},
	{func() tok.Grammar { return &shape1468{} }, []shapeField{{"F0", true, "a\x76"}}},
	{func() tok.Grammar { return &shape1469{} }, []shapeField{{"F0", true, "a\x77b"}}},
	{func() tok.Grammar { return &shape1470{} }, []shapeField{{"F0", true, "\x77b"}}},
	{func() tok.Grammar { return &shape1471{} }, []shapeField{{"F0", true, "a\x77"}}},
	{func() tok.Grammar { return &shape1472{} }, []shapeField{{"F0", true, "a\x78b"}}},
	{func() tok.Grammar { return &shape1473{} }, []shapeField{{"F0", true, "\x78b"}}},
	{func() tok.Grammar { return &shape1474{} }, []shapeField{{"F0", true, "a\x78"}}},
	{func() tok.Grammar { return &shape1475{} }, []shapeField{{"F0", true, "a\x79b"}}},
	{func() tok.Grammar { return &shape1476{} }, []shapeField{{"F0", true, "\x79b"}}},
	{func() tok.Grammar { return &shape1477{} }, []shapeField{{"F0", true, "a\x79"}}},
	{func() tok.Grammar { return &shape1478{} }, []shapeField{{"F0", true, "a\x7ab"}}},
	{func() tok.Grammar { return &shape1479{} }, []shapeField{{"F0", true, "\x7ab"}}},
	{func() tok.Grammar { return &shape1480{} }, []shapeField{{"F0", true, "a\x7a"}}},
	{func() tok.Grammar { return &shape1481{} }, []shapeField{{"F0", true, "a\x7bb"}}},
	{func() tok.Grammar { return &shape1482{} }, []shapeField{{"F0", true, "\x7bb"}}},
	{func() tok.Grammar { return &shape1483{} }, []shapeField{{"F0", true, "a\x7b"}}},
	{func() tok.Grammar { return &shape1484{} }, []shapeField{{"F0", true, "a\x7cb"}}},
	{func() tok.Grammar { return &shape1485{} }, []shapeField{{"F0", true, "\x7cb"}}},
	{func() tok.Grammar { return &shape1486{} }, []shapeField{{"F0", true, "a\x7c"}}},
	{func() tok.Grammar { return &shape1487{} }, []shapeField{{"F0", true, "a\x7db"}}},
	{func() tok.Grammar { return &shape1488{} }, []shapeField{{"F0", true, "\x7db"}}},
	{func() tok.Grammar { return &shape1489{} }, []shapeField{{"F0", true, "a\x7d"}}},
	{func() tok.Grammar { return &shape1490{} }, []shapeField{{"F0", true, "a\x7eb"}}},
	{func() tok.Grammar { return &shape1491{} }, []shapeField{{"F0", true, "\x7eb"}}},
	{func() tok.Grammar { return &shape1492{} }, []shapeField{{"F0", true, "a\x7e"}}},
	{func() tok.Grammar { return &shape1493{} }, []shapeField{{"F0", true, "a\x7fb"}}},
	{func() tok.Grammar { return &shape1494{} }, []shapeField{{"F0", true, "a\x80b"}}},
	{func() tok.Grammar { return &shape1495{} }, []shapeField{{"F0", true, "a\x81b"}}},
	{func() tok.Grammar { return &shape1496{} }, []shapeField{{"F0", true, "a\x82b"}}},
	{func() tok.Grammar { return &shape1497{} }, []shapeField{{"F0", true, "a\x83b"}}},
	{func() tok.Grammar { return &shape1498{} }, []shapeField{{"F0", true, "a\x84b"}}},
	{func() tok.Grammar { return &shape1499{} }, []shapeField{{"F0", true, "a\x85b"}}},
	{func() tok.Grammar { return &shape1500{} }, []shapeField{{"F0", true, "a\x86b"}}},
	{func() tok.Grammar { return &shape1501{} }, []shapeField{{"F0", true, "a\x87b"}}},
	{func() tok.Grammar { return &shape1502{} }, []shapeField{{"F0", true, "a\x88b"}}},
	{func() tok.Grammar { return &shape1503{} }, []shapeField{{"F0", true, "a\x89b"}}},
	{func() tok.Grammar { return &shape1504{} }, []shapeField{{"F0", true, "a\x8ab"}}},
	{func() tok.Grammar { return &shape1505{} }, []shapeField{{"F0", true, "a\x8bb"}}},
	{func() tok.Grammar { return &shape1506{} }, []shapeField{{"F0", true, "a\x8cb"}}},
	{func() tok.Grammar { return &shape1507{} }, []shapeField{{"F0", true, "a\x8db"}}},
	{func() tok.Grammar { return &shape1508{} }, []shapeField{{"F0", true, "a\x8eb"}}},
	{func() tok.Grammar { return &shape1509{} }, []shapeField{{"F0", true, "a\x8fb"}}},
	{func() tok.Grammar { return &shape1510{} }, []shapeField{{"F0", true, "a\x90b"}}},
	{func() tok.Grammar { return &shape1511{} }, []shapeField{{"F0", true, "a\x91b"}}},
	{func() tok.Grammar { return &shape1512{} }, []shapeField{{"F0", true, "a\x92b"}}},
	{func() tok.Grammar { return &shape1513{} }, []shapeField{{"F0", true, "a\x93b"}}},
	{func() tok.Grammar { return &shape1514{} }, []shapeField{{"F0", true, "a\x94b"}}},
	{func() tok.Grammar { return &shape1515{} }, []shapeField{{"F0", true, "a\x95b"}}},
	{func() tok.Grammar { return &shape1516{} }, []shapeField{{"F0", true, "a\x96b"}}},
	{func() tok.Grammar { return &shape1517{} }, []shapeField{{"F0", true, "a\x97b"}}},
	{func() tok.Grammar { return &shape1518{} }, []shapeField{{"F0", true, "a\x98b"}}},
	{func() tok.Grammar { return &shape1519{} }, []shapeField{{"F0", true, "a\x99b"}}},
	{func() tok.Grammar { return &shape1520{} }, []shapeField{{"F0", true, "a\x9ab"}}},
	{func() tok.Grammar { return &shape1521{} }, []shapeField{{"F0", true, "a\x9bb"}}},
	{func() tok.Grammar { return &shape1522{} }, []shapeField{{"F0", true, "a\x9cb"}}},
	{func() tok.Grammar { return &shape1523{} }, []shapeField{{"F0", true, "a\x9db"}}},
	{func() tok.Grammar { return &shape1524{} }, []shapeField{{"F0", true, "a\x9eb"}}},
	{func() tok.Grammar { return &shape1525{} }, []shapeField{{"F0", true, "a\x9fb"}}},
	{func() tok.Grammar { return &shape1526{} }, []shapeField{{"F0", true, "a\xa0b"}}},
	{func() tok.Grammar { return &shape1527{} }, []shapeField{{"F0", true, "a\xa1b"}}},
	{func() tok.Grammar { return &shape1528{} }, []shapeField{{"F0", true, "a\xa2b"}}},
	{func() tok.Grammar { return &shape1529{} }, []shapeField{{"F0", true, "a\xa3b"}}},
	{func() tok.Grammar { return &shape1530{} }, []shapeField{{"F0", true, "a\xa4b"}}},
	{func() tok.Grammar { return &shape1531{} }, []shapeField{{"F0", true, "a\xa5b"}}},
	{func() tok.Grammar { return &shape1532{} }, []shapeField{{"F0", true, "a\xa6b"}}},
	{func() tok.Grammar { return &shape1533{} }, []shapeField{{"F0", true, "a\xa7b"}}},
	{func() tok.Grammar { return &shape1534{} }, []shapeField{{"F0", true, "a\xa8b"}}},
	{func() tok.Grammar { return &shape1535{} }, []shapeField{{"F0", true, "a\xa9b"}}},
	{func() tok.Grammar { return &shape1536{} }, []shapeField{{"F0", true, "a\xaab"}}},
	{func() tok.Grammar { return &shape1537{} }, []shapeField{{"F0", true, "a\xabb"}}},
	{func() tok.Grammar { return &shape1538{} }, []shapeField{{"F0", true, "a\xacb"}}},
	{func() tok.Grammar { return &shape1539{} }, []shapeField{{"F0", true, "a\xadb"}}},
	{func() tok.Grammar { return &shape1540{} }, []shapeField{{"F0", true, "a\xaeb"}}},
	{func() tok.Grammar { return &shape1541{} }, []shapeField{{"F0", true, "a\xafb"}}},
	{func() tok.Grammar { return &shape1542{} }, []shapeField{{"F0", true, "a\xb0b"}}},
	{func() tok.Grammar { return &shape1543{} }, []shapeField{{"F0", true, "a\xb1b"}}},
	{func() tok.Grammar { return &shape1544{} }, []shapeField{{"F0", true, "a\xb2b"}}},
	{func() tok.Grammar { return &shape1545{} }, []shapeField{{"F0", true, "a\xb3b"}}},
	{func() tok.Grammar { return &shape1546{} }, []shapeField{{"F0", true, "a\xb4b"}}},
	{func() tok.Grammar { return &shape1547{} }, []shapeField{{"F0", true, "a\xb5b"}}},
	{func() tok.Grammar { return &shape1548{} }, []shapeField{{"F0", true, "a\xb6b"}}},
	{func() tok.Grammar { return &shape1549{} }, []shapeField{{"F0", true, "a\xb7b"}}},
	{func() tok.Grammar { return &shape1550{} }, []shapeField{{"F0", true, "a\xb8b"}}},
	{func() tok.Grammar { return &shape1551{} }, []shapeField{{"F0", true, "a\xb9b"}}},
	{func() tok.Grammar { return &shape1552{} }, []shapeField{{"F0", true, "a\xbab"}}},
	{func() tok.Grammar { return &shape1553{} }, []shapeField{{"F0", true, "a\xbbb"}}},
	{func() tok.Grammar { return &shape1554{} }, []shapeField{{"F0", true, "a\xbcb"}}},
	{func() tok.Grammar { return &shape1555{} }, []shapeField{{"F0", true, "a\xbdb"}}},
	{func() tok.Grammar { return &shape1556{} }, []shapeField{{"F0", true, "a\xbeb"}}},
	{func() tok.Grammar { return &shape1557{} }, []shapeField{{"F0", true, "a\xbfb"}}},
	{func() tok.Grammar { return &shape1558{} }, []shapeField{{"F0", true, "a\xc0b"}}},
	{func() tok.Grammar { return &shape1559{} }, []shapeField{{"F0", true, "a\xc1b"}}},
	{func() tok.Grammar { return &shape1560{} }, []shapeField{{"F0", true, "a\xc2b"}}},
	{func() tok.Grammar { return &shape1561{} }, []shapeField{{"F0", true, "a\xc3b"}}},
	{func() tok.Grammar { return &shape1562{} }, []shapeField{{"F0", true, "a\xc4b"}}},
	{func() tok.Grammar { return &shape1563{} }, []shapeField{{"F0", true, "a\xc5b"}}},
	{func() tok.Grammar { return &shape1564{} }, []shapeField{{"F0", true, "a\xc6b"}}},
	{func() tok.Grammar { return &shape1565{} }, []shapeField{{"F0", true, "a\xc7b"}}},
	{func() tok.Grammar { return &shape1566{} }, []shapeField{{"F0", true, "a\xc8b"}}},
	{func() tok.Grammar { return &shape1567{} }, []shapeField{{"F0", true, "a\xc9b"}}},
	{func() tok.Grammar { return &shape1568{} }, []shapeField{{"F0", true, "a\xcab"}}},
	{func() tok.Grammar { return &shape1569{} }, []shapeField{{"F0", true, "a\xcbb"}}},
	{func() tok.Grammar { return &shape1570{} }, []shapeField{{"F0", true, "a\xccb"}}},
	{func() tok.Grammar { return &shape1571{} }, []shapeField{{"F0", true, "a\xcdb"}}},
	{func() tok.Grammar { return &shape1572{} }, []shapeField{{"F0", true, "a\xceb"}}},
	{func() tok.Grammar { return &shape1573{} }, []shapeField{{"F0", true, "a\xcfb"}}},
	{func() tok.Grammar { return &shape1574{} }, []shapeField{{"F0", true, "a\xd0b"}}},
	{func() tok.Grammar { return &shape1575{} }, []shapeField{{"F0", true, "a\xd1b"}}},
	{func() tok.Grammar { return &shape1576{} }, []shapeField{{"F0", true, "a\xd2b"}}},
	{func() tok.Grammar { return &shape1577{} }, []shapeField{{"F0", true, "a\xd3b"}}},
	{func() tok.Grammar { return &shape1578{} }, []shapeField{{"F0", true, "a\xd4b"}}},
	{func() tok.Grammar { return &shape1579{} }, []shapeField{{"F0", true, "a\xd5b"}}},
	{func() tok.Grammar { return &shape1580{} }, []shapeField{{"F0", true, "a\xd6b"}}},
	{func() tok.Grammar { return &shape1581{} }, []shapeField{{"F0", true, "a\xd7b"}}},
	{func() tok.Grammar { return &shape1582{} }, []shapeField{{"F0", true, "a\xd8b"}}},
	{func() tok.Grammar { return &shape1583{} }, []shapeField{{"F0", true, "a\xd9b"}}},
	{func() tok.Grammar { return &shape1584{} }, []shapeField{{"F0", true, "a\xdab"}}},
	{func() tok.Grammar { return &shape1585{} }, []shapeField{{"F0", true, "a\xdbb"}}},
	{func() tok.Grammar { return &shape1586{} }, []shapeField{{"F0", true, "a\xdcb"}}},
	{func() tok.Grammar { return &shape1587{} }, []shapeField{{"F0", true, "a\xddb"}}},
	{func() tok.Grammar { return &shape1588{} }, []shapeField{{"F0", true, "a\xdeb"}}},
	{func() tok.Grammar { return &shape1589{} }, []shapeField{{"F0", true, "a\xdfb"}}},
	{func() tok.Grammar { return &shape1590{} }, []shapeField{{"F0", true, "a\xe0b"}}},
	{func() tok.Grammar { return &shape1591{} }, []shapeField{{"F0", true, "a\xe1b"}}},
	{func() tok.Grammar { return &shape1592{} }, []shapeField{{"F0", true, "a\xe2b"}}},
	{func() tok.Grammar { return &shape1593{} }, []shapeField{{"F0", true, "a\xe3b"}}},
	{func() tok.Grammar { return &shape1594{} }, []shapeField{{"F0", true, "a\xe4b"}}},
	{func() tok.Grammar { return &shape1595{} }, []shapeField{{"F0", true, "a\xe5b"}}},
	{func() tok.Grammar { return &shape1596{} }, []shapeField{{"F0", true, "a\xe6b"}}},
	{func() tok.Grammar { return &shape1597{} }, []shapeField{{"F0", true, "a\xe7b"}}},
	{func() tok.Grammar { return &shape1598{} }, []shapeField{{"F0", true, "a\xe8b"}}},
	{func() tok.Grammar { return &shape1599{} }, []shapeField{{"F0", true, "a\xe9b"}}},
	{func() tok.Grammar { return &shape1600{} }, []shapeField{{"F0", true, "a\xeab"}}},
	{func() tok.Grammar { return &shape1601{} }, []shapeField{{"F0", true, "a\xebb"}}},
	{func() tok.Grammar { return &shape1602{} }, []shapeField{{"F0", true, "a\xecb"}}},
	{func() tok.Grammar { return &shape1603{} }, []shapeField{{"F0", true, "a\xedb"}}},
	{func() tok.Grammar { return &shape1604{} }, []shapeField{{"F0", true, "a\xeeb"}}},
	{func() tok.Grammar { return &shape1605{} }, []shapeField{{"F0", true, "a\xefb"}}},
	{func() tok.Grammar { return &shape1606{} }, []shapeField{{"F0", true, "a\xf0b"}}},
	{func() tok.Grammar { return &shape1607{} }, []shapeField{{"F0", true, "a\xf1b"}}},
	{func() tok.Grammar { return &shape1608{} }, []shapeField{{"F0", true, "a\xf2b"}}},
	{func() tok.Grammar { return &shape1609{} }, []shapeField{{"F0", true, "a\xf3b"}}},
	{func() tok.Grammar { return &shape1610{} }, []shapeField{{"F0", true, "a\xf4b"}}},
	{func() tok.Grammar { return &shape1611{} }, []shapeField{{"F0", true, "a\xf5b"}}},
	{func() tok.Grammar { return &shape1612{} }, []shapeField{{"F0", true, "a\xf6b"}}},
	{func() tok.Grammar { return &shape1613{} }, []shapeField{{"F0", true, "a\xf7b"}}},
	{func() tok.Grammar { return &shape1614{} }, []shapeField{{"F0", true, "a\xf8b"}}},
	{func() tok.Grammar { return &shape1615{} }, []shapeField{{"F0", true, "a\xf9b"}}},
	{func() tok.Grammar { return &shape1616{} }, []shapeField{{"F0", true, "a\xfab"}}},
	{func() tok.Grammar { return &shape1617{} }, []shapeField{{"F0", true, "a\xfbb"}}},
	{func() tok.Grammar { return &shape1618{} }, []shapeField{{"F0", true, "a\xfcb"}}},
	{func() tok.Grammar { return &shape1619{} }, []shapeField{{"F0", true, "a\xfdb"}}},
	{func() tok.Grammar { return &shape1620{} }, []shapeField{{"F0", true, "a\xfeb"}}},
	{func() tok.Grammar { return &shape1621{} }, []shapeField{{"F0", true, "a\xffb"}}},
	{func() tok.Grammar { return &shape1622{} }, []shapeField{{"F0", true, "a"}}},
	{func() tok.Grammar { return &shape1623{} }, []shapeField{{"F0", true, "q"}}},
	{func() tok.Grammar { return &shape1624{} }, []shapeField{{"F0", true, "a"}}},
	{func() tok.Grammar { return &shape1625{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1626{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1627{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1628{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1629{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1630{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1631{} }, []shapeField{{"F0", true, ""}}},
	{func() tok.Grammar { return &shape1632{} }, []shapeField{{"F0", true, "a"}}},
	{func() tok.Grammar { return &shape1633{} }, []shapeField{{"F0", true, "-"}}},
	{func() tok.Grammar { return &shape1634{} }, []shapeField{{"F0", true, "ä"}}},
	{func() tok.Grammar { return &shape1635{} }, []shapeField{{"F0", true, "aä"}}},
	{func() tok.Grammar { return &shape1636{} }, []shapeField{{"F0", true, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}}},
	{func() tok.Grammar { return &shape1637{} }, []shapeField{{"F0", true, "a.b-c_d+e"}}},
	{func() tok.Grammar { return &shape1638{} }, []shapeField{{"F0", true, "a.b,omitempty"}}},
	{func() tok.Grammar { return &shape1639{} }, []shapeField{{"Rule", true, "emb"}}},
	{func() tok.Grammar { return &shape1640{} }, []shapeField{{"Rule", true, "emb"}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape1641{} }, []shapeField{{"F0", true, "a0"}, {"Rule", true, "emb"}}},
	{func() tok.Grammar { return &shape1642{} }, []shapeField{{"F0", true, "a0"}, {"Rule", true, "emb"}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape1643{} }, []shapeField{{"f0", false, ""}, {"Rule", true, "emb"}, {"F2", true, "a2"}}},
	{func() tok.Grammar { return &shape1644{} }, []shapeField{{"Rule", true, ""}}},
	{func() tok.Grammar { return &shape1645{} }, []shapeField{{"Rule", true, ""}, {"F1", true, "a1"}}},
	{func() tok.Grammar { return &shape1646{} }, []shapeField{{"F0", true, "a0"}, {"Rule", true, ""}}},
	{func() tok.Grammar { return &shape1647{} }, []shapeField{{"F0", true, "a0"}, {"Rule", true, ""}, {"F2", true, "2x"}}},
	{func() tok.Grammar { return &shape1648{} }, []shapeField{{"f0", false, ""}, {"Rule", true, ""}, {"F2", true, "a2"}}},
}
