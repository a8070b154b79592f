#!/usr/bin/env python3
# Runs checks against behaviour-preserving edits of /repo: refactor.py [-checks C01,C02] [a b ...]
import sys,os,glob,subprocess,shutil,json,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c,cwd=None,t=1000): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
args=sys.argv[1:]
only=None
if args and args[0]=='-checks': only=args[1].split(','); args=args[2:]
sets=args or [os.path.basename(f)[:-3] for f in sorted(glob.glob(V+'/tools/refactors/*.py'))]
m=json.load(open(V+'/MANIFEST.json'))
checks=only or [c['property'] for c in m['checks']]
for s in sets:
    ns={}
    exec(open(f'{V}/tools/refactors/{s}.py').read(),ns)
    w='/tmp/refrepo'
    shutil.rmtree(w,ignore_errors=True)
    sh('cp -a /repo '+w)
    bad=0
    for f,old,new in ns['E']:
        t=open(w+'/'+f).read()
        if t.count(old)<1: print(s,'no match',f,repr(old)[:80]); bad=1
        open(w+'/'+f,'w').write(t.replace(old,new))
    b=sh('. /opt/vp/env.sh; gofmt -l . ; go vet ./... ; go build ./... && go test -vet=off -count=1 ./... 2>&1',w)
    print(s,'build+tests',b.returncode, '' if b.returncode==0 else (b.stdout+b.stderr)[-1500:],flush=True)
    if b.returncode: continue
    for c in checks:
        r=sh(f'REPO={w} sh {V}/check.sh {c} quick',V)
        note=[l for l in r.stdout.split('\n') if l.startswith('  ') or 'UNCONF' in l or 'NOT exh' in l or re.search(r'[1-9]\d* (unsupported|unknown)',l)]
        print(s,c,'rc=%d'%r.returncode,'OK' if r.returncode==0 else 'ALARM',' '.join(note)[:500],flush=True)
    shutil.rmtree(w,ignore_errors=True)
