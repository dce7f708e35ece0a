package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/aiq/tok"
)

func init() {
	register("C32", "all JSON texts up to a bound over 12 symbols and all one-symbol insertions in documents, Lua chunks with every construct and their prefixes, names of files, numbers of arguments and files that can't be read; the commands are built from the tree and run on files in a scratch directory; compared with the flame stack of the reference parse (JSON) and of the graph of the picks (Lua)", checkC32,
		"the picks of the Lua grammar are judged by C33, here only that the command prints the flame stack of them")
}

type demoDir struct {
	dir string
	bin string
}

// run writes the file and runs the command with the arguments.
func (d *demoDir) run(args ...string) (out, errs string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, d.bin, args...)
	cmd.Dir = d.dir
	cmd.Env = []string{}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return o.String(), e.String(), x.ExitCode()
		}
		panic(err)
	}
	return o.String(), e.String(), 0
}

func (d *demoDir) write(name, text string) {
	if err := os.WriteFile(filepath.Join(d.dir, name), []byte(text), 0o644); err != nil {
		panic(err)
	}
}

func judgeDemo(w *W, d *demoDir, want string, valid bool, args ...string) {
	out, errs, code := d.run(args...)
	w.states++
	w.trans++
	if !valid {
		w.Out("refused")
		if code == 0 || out != "" || errs == "" {
			w.Fail("arguments %q: exit status %d, output %q, message %q; expected a message and another exit status", args, code, out, errs)
		}
		return
	}
	w.Out("printed")
	if code != 0 || out != want {
		w.Fail("arguments %q: exit status %d (%s), output\n%s\nexpected\n%s", args, code, errs, out, want)
	}
}

// jsonFlame: the flame stack that json-stack has to print.
func jsonFlame(name, t string) (string, bool) {
	in := &interp{t: t}
	r := in.eval(jsonModel(), 0, len(t))
	if !r.ok {
		return "", false
	}
	segs := []seg{}
	for _, s := range in.spec {
		switch s.info {
		case "key", "object", "array", "string", "number", "bool", "null":
			segs = append(segs, s)
		}
	}
	b := &strings.Builder{}
	flame(b, "", 1, nestModel(name, segs))
	return b.String(), true
}

func luaFlame(name, t string) (string, bool) {
	l := newLua(&Ctx{})
	s := tok.NewScanner(t)
	bk := s.NewBasketFor(l.g)
	if s.Use(l.g) != nil {
		return "", false
	}
	gr := tok.BuildGraph(name, bk.Picked())
	b := &strings.Builder{}
	flame(b, "", 1, treeOf(gr.Root, 0))
	return b.String(), true
}

func checkC32(c *Ctx) {
	// the folder of this process, the supervisor removes it
	base := filepath.Join(filepath.Dir(os.Args[len(os.Args)-1]), "demo")
	if len(os.Args) > 4 {
		base = filepath.Join(filepath.Dir(os.Args[4]), "demo")
	}
	demo := os.Getenv("MC_DEMO")
	n := 0
	var mu sync.Mutex
	pool := func(cmd string) *sync.Pool {
		return &sync.Pool{New: func() interface{} {
			mu.Lock()
			n++
			d := filepath.Join(base, fmt.Sprintf("%d", n))
			mu.Unlock()
			if err := os.MkdirAll(d, 0o755); err != nil {
				panic(err)
			}
			return &demoDir{d, filepath.Join(demo, cmd)}
		}}
	}
	js, lua := pool("json-stack"), pool("full-lua-stack")

	syms := []string{"{", "}", "[", "]", ",", `"a"`, `""`, ":", "-1.5e2", " ", "true", "null"}
	list := texts(syms, c.quickOr(3, 4))
	docs := append(append([]string{}, jsonDocs...), `[{"a":{"b":[{"c":[[],{}]}]}},"\uABCD\uabcd","\ud83d\ude00",1.5E+10,-0,0.0e-0]`, " \n{ \"k\" : [ 1 , false ] }\r\n\t")
	for _, x := range docs {
		for i := 0; i <= len(x); i++ {
			list = append(list, x[:i], x[i:])
			for _, y := range syms {
				list = append(list, x[:i]+y+x[i:])
			}
		}
	}
	for _, x := range specials {
		for _, y := range []string{"", "1", `"a"`, "[]", `{"a":1}`, `[1,"b"]`} {
			list = append(list, x+y, y+x, x+y+x, x+x+y)
			for i := 1; i < len(y); i++ {
				list = append(list, y[:i]+x+y[i:])
			}
		}
	}
	overList(c, "json", fmt.Sprintf("all texts of up to %d of %d symbols, prefixes, suffixes and one-symbol insertions of %d documents, special characters (byte order marks, line breaks, ...) before, inside and after 6 of them", c.quickOr(3, 4), len(syms), len(docs)), uniq(list), 32, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("json-stack with %q", t) }, func() {
			d := js.Get().(*demoDir)
			defer js.Put(d)
			d.write("f.json", t)
			want, ok := jsonFlame("f.json", t)
			judgeDemo(w, d, want, ok, "f.json")
		})
	})
	chunks := append([]string{"", " ", "--c", "x", "(", "\x00", "=", "if x then"}, luaDocs...)
	chunks = append(chunks, luaSentences...)
	for _, x := range luaSentences {
		for i := range x {
			chunks = append(chunks, x[:i])
		}
	}
	chunks = append(chunks, texts([]string{"x", "=", "1", "(", ")", ";", " ", "do end", "local"}, c.quickOr(3, 4))...)
	for _, x := range append(specials, "#", "#!a\n", "\xff", "\x1bLua") {
		for _, y := range []string{"", "x=1", "--c", "x='a'", "f()"} {
			chunks = append(chunks, x+y, y+x, x+y+x)
			for i := 1; i < len(y); i++ {
				chunks = append(chunks, y[:i]+x+y[i:])
			}
		}
	}
	overList(c, "lua", fmt.Sprintf("%d chunks, their prefixes, special characters (byte order marks, line breaks, ...) before, inside and after 5 of them, all texts of up to %d of 9 symbols", len(luaDocs)+len(luaSentences), c.quickOr(3, 4)), uniq(chunks), 16, func(w *W, t string) {
		w.Case(func() string { return fmt.Sprintf("full-lua-stack with %q", t) }, func() {
			d := lua.Get().(*demoDir)
			defer lua.Put(d)
			d.write("f.lua", t)
			want, ok := luaFlame("f.lua", t)
			judgeDemo(w, d, want, ok, "f.lua")
		})
	})
	sizes := []int{1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 140000}
	sizes = append(sizes, 1<<20-1, 1<<20, 1<<20+1, c.quickOr(2<<20+1, 16<<20+1))
	c.Phase("sizes", "both commands: files of 1000..2097153 bytes (around powers of two)", 2*len(sizes), func(w *W, u int) {
		k, n := u%2, sizes[u/2]
		w.Case(func() string { return fmt.Sprintf("command %d, %d bytes", k, n) }, func() {
			p := []*sync.Pool{js, lua}[k]
			d := p.Get().(*demoDir)
			defer p.Put(d)
			if k == 0 {
				// building the graph takes quadratic time, so only 300 elements
				many := strings.Repeat("\""+strings.Repeat("x", n/400)+"\",", 300)
				if len(many) > n-4 {
					many = ""
				}
				for _, t := range []string{"[" + many + "\"" + strings.Repeat("y", n-4-len(many)) + "\"]", "[" + many + strings.Repeat(" ", n-len(many)-3) + "1]", `"` + strings.Repeat("x", n-2) + `"`, strings.Repeat(" ", n-4) + "true", "[" + many + strings.Repeat(" ", n-len(many))} {
					d.write("f.json", t)
					want, ok := jsonFlame("f.json", t)
					judgeDemo(w, d, want, ok, "f.json")
				}
				return
			}
			for _, t := range []string{strings.Repeat("x="+strings.Repeat("1", n/50)+"\n", 40) + strings.Repeat(" ", n/8) + "y=1", "--" + strings.Repeat("c", n-2), "x='" + strings.Repeat("s", n-4) + "'"} {
				d.write("f.lua", t)
				want, ok := luaFlame("f.lua", t)
				judgeDemo(w, d, want, ok, "f.lua")
			}
		})
	})
	names := []string{"a", "x.json", "a b", "ä", "%d%s", "-x", "a;b", "1.x[0-1)", "\n", "sub/f", "./f", "sub/../g", "-", "--", "-h", "--help", "--version", "-v", "~", "*", "$HOME", " ", "a\\b", "a:b", "a=b", "f.JSON", "f.txt", ".hidden", "f.json.gz", "\"q\"", "'", "%", "%!", "100%d", "a,b", "@f", "+f", "[a]", "{a}", "\xff", "\t", "1", "-1", "stdin", "sub//f", strings.Repeat("n", 200)}
	text := []string{`{"a":[1,"x",null]}`, "x = { 1 }"}
	flames := []func(string, string) (string, bool){jsonFlame, luaFlame}
	c.Phase("arguments", fmt.Sprintf("both commands: %d names of files, a missing file, a directory, 0, 2 and 3 arguments", len(names)), 2*len(names), func(w *W, u int) {
		k, name := u%2, names[u/2]
		w.Case(func() string { return fmt.Sprintf("command %d, file %q", k, name) }, func() {
			p := []*sync.Pool{js, lua}[k]
			d := p.Get().(*demoDir)
			defer p.Put(d)
			os.MkdirAll(filepath.Join(d.dir, "sub"), 0o755)
			d.write(name, text[k])
			want, _ := flames[k](name, text[k])
			judgeDemo(w, d, want, true, name)
			abs := filepath.Join(d.dir, name)
			want, _ = flames[k](abs, text[k])
			judgeDemo(w, d, want, true, abs)
			for _, a := range [][]string{{}, {name, name}, {name, name, name}, {name + "missing"}, {"sub"}, {""}, {name, ""}} {
				judgeDemo(w, d, "", false, a...)
			}
		})
	})
}
