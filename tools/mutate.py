#!/usr/bin/env python3
# Runs checks against small breaking edits of /repo: mutate.py [-j N] [name ...]
# Every edit must still build and pass the tests; a check that stays quiet is reported as MISSED.
import sys,os,glob,subprocess,shutil,re
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,cwd=None,t=1000): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
args=sys.argv[1:]; J=2
if args and args[0]=='-j': J=int(args[1]); args=args[2:]
M={}
for f in sorted(glob.glob(V+'/tools/mutants/*.py')): exec(open(f).read(),{'M':M})
def run(name):
    m=M[name]; w='/tmp/mut-'+name
    shutil.rmtree(w,ignore_errors=True)
    sh('cp -a /repo '+w)
    try:
        for f,old,new in m['edits']:
            t=open(w+'/'+f).read()
            if t.count(old)!=1: return f'{name} EDIT matches {t.count(old)} times in {f}: {old[:60]!r}'
            open(w+'/'+f,'w').write(t.replace(old,new))
        b=sh('. /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1',w)
        if b.returncode: return f'{name} BUILD/TESTS {(b.stdout+b.stderr)[-600:]}'
        out=[]
        for c in m['p'].split():
            r=sh(f'REPO={w} sh {V}/check.sh {c} quick',V)
            v=[l for l in r.stdout.split('\n') if 'FALSIFIED' in l or l.startswith('  ') and ':' in l][:1]
            n=[l for l in r.stdout.split('\n') if 'UNCONF' in l or 'NOT exh' in l or re.search(r'[1-9]\d* unsupported',l)]
            vio='VIOLATION property=' in r.stdout
            if r.returncode==1 and vio: return f'{name} {c} caught {" ".join(v)[:160]}'
            out.append(f'{c} rc={r.returncode} {" ".join(n)[:300]}')
        return f'{name} MISSED {"; ".join(out)}'
    finally: shutil.rmtree(w,ignore_errors=True)
names=args or list(M)
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(run,names): print(r,flush=True)
