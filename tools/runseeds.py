"""runs the check of each planted bug in scratch copies: runseeds.py [ID...] (all checks with -a)"""
import subprocess,sys,os,json,shutil,tempfile,glob,time
SD=os.environ.get('SEEDS','/verif/seeded')
ids=[a for a in sys.argv[1:] if a!='-a'] or sorted(os.listdir(SD))
allc='-a' in sys.argv
for i in ids:
    t=tempfile.mkdtemp(prefix='rs-')
    subprocess.run(f'git clone -q /repo {t}/repo && mkdir {t}/verif && cp -r /verif/mc /verif/run.sh /verif/KNOWN_FINDINGS.txt {t}/verif/ && sed -i "s#=> /repo#=> {t}/repo#" {t}/verif/mc/go.mod',shell=True,check=True)
    subprocess.run(f'git apply {SD}/{i}/patch.diff',shell=True,check=True,cwd=t+'/repo')
    prop=json.load(open(f'{SD}/{i}/meta.json'))['property']
    res=[]
    for p in ([prop] if not allc else ['C%02d'%n for n in range(1,34)]):
        t0=time.time()
        r=subprocess.run(f'./run.sh check {p} quick',shell=True,cwd=t+'/verif',capture_output=True,text=True)
        v=f'VIOLATION property={p}' in r.stdout
        res.append((p,r.returncode,v,round(time.time()-t0,1)))
    hit=[p for p,c,v,_ in res if c==1 and v]
    err=[(p,c) for p,c,v,_ in res if c not in(0,1)]
    print(i,prop,'CAUGHT' if prop in hit else 'MISSED',hit if allc else res,err,flush=True)
    shutil.rmtree(t)
