"""Makes and confirms planted bugs: seed.py FILE.py..., each FILE defines bug(...) calls.
A bug is made in a scratch copy of /repo, kept only if it builds, passes the tests, changes
lines of the base commit, and its demo passes without and fails with it."""
import subprocess,sys,os,json,shutil,tempfile
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
SH='''#!/bin/bash
# cwd: /repo. Exits 0 if the demonstration holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go"
cat > "$tmp/go.mod" <<END
module demo

go 1.16

require github.com/aiq/tok v0.0.0

replace github.com/aiq/tok => $repo
END
cd "$tmp" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local timeout 120 go run %s.
'''
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def bug(id,prop,edits,demo,needs,breaks,race=False,only=None):
    if ONLY and id not in ONLY: return
    t=tempfile.mkdtemp(prefix='seed-'); r=t+'/repo'
    try:
        sh(f'git clone -q /repo {r}','/tmp')
        for f,old,new in edits:
            s=open(f'{r}/{f}').read()
            assert s.count(old)==1,(id,f,old,s.count(old))
            open(f'{r}/{f}','w').write(s.replace(old,new))
        o=sh('gofmt -l . ',r).stdout
        if o: sh('gofmt -w $(git diff --name-only)',r)
        diff=sh('git diff',r).stdout
        # removed lines have to be base lines
        mine=0; base=0
        cur=None;ln=0
        for l in diff.split('\n'):
            if l.startswith('--- a/'): cur=l[6:]
            elif l.startswith('@@'): ln=int(l.split()[1][1:].split(',')[0])
            elif l.startswith('-') and not l.startswith('---'):
                b=sh(f'git blame -s -L{ln},{ln} HEAD -- {cur}',r).stdout
                if b.startswith('^') or b.startswith('0adaed3'): base+=1
                else: mine+=1
                ln+=1
            elif l.startswith(' '): ln+=1
        b=sh('go build ./... && go test -vet=off -count=1 ./...',r)
        if b.returncode: print(id,'TESTS FAIL',b.stdout[-600:],b.stderr[-600:]); return
        d=f'/verif/seeded/{id}'
        os.makedirs(d,exist_ok=True)
        open(d+'/main.go','w').write(demo); sh('gofmt -w main.go',d)
        open(d+'/demo.sh','w').write(SH%('-race ' if race else '')); os.chmod(d+'/demo.sh',0o755)
        open(d+'/patch.diff','w').write(diff)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        bad=sh(f'bash {d}/demo.sh',r)
        sh('git checkout -q .',r)
        good=sh(f'bash {d}/demo.sh',r)
        ok=bad.returncode!=0 and good.returncode==0 and base>0 and mine==0 and 'build failed' not in bad.stderr.lower()
        print(id,prop,'OK' if ok else 'BAD',f'base={base} mine={mine} with={bad.returncode} without={good.returncode}', '' if ok else (bad.stdout+bad.stderr+good.stdout+good.stderr)[-800:])
        if not ok: shutil.rmtree(d)
    finally: shutil.rmtree(t)
ONLY=[a for a in sys.argv[1:] if not a.endswith('.py')]
def demo(body,imports=''):
    return 'package main\n\nimport (\n"fmt"\n"os"\n'+imports+'\n"github.com/aiq/tok"\n)\n\nfunc fail(f string, a ...interface{}) {\nfmt.Printf(f+"\\n", a...)\nos.Exit(1)\n}\n\nvar _ = tok.NewScanner\n\nfunc main() {\n'+body+'\n}\n'
def demoRaw(cmd,text,want,name='F'):
    """runs a command of the repository on a file; want None: only the first line, which names the file"""
    import json as j
    w='want := %s\n'%j.dumps(want) if want is not None else 'want := "1." + name + "["\n'
    return 'package main\n\nimport (\n"fmt"\n"os"\n"os/exec"\n"path/filepath"\n"strings"\n)\n\nfunc main() {\ndir, _ := os.MkdirTemp("", "demo")\ndefer os.RemoveAll(dir)\nbin := filepath.Join(dir, "bin")\nif out, err := exec.Command("go", "build", "-o", bin, "github.com/aiq/tok/demo/%s").CombinedOutput(); err != nil {\nfmt.Println("build failed", string(out))\nos.Exit(2)\n}\nname := %s\nos.WriteFile(filepath.Join(dir, name), []byte(%s), 0644)\n'%(cmd,j.dumps(name),j.dumps(text))+w+'c := exec.Command(bin, name)\nc.Dir = dir\nout, err := c.Output()\nif err != nil || !strings.HasPrefix(string(out), want) {\nfmt.Printf("%v %q\\n", err, out)\nos.RemoveAll(dir)\nos.Exit(1)\n}\n}\n'
if __name__=='__main__':
    for f in sys.argv[1:]:
        if f.endswith('.py'): exec(open(f).read())
