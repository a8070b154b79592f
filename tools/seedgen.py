#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in seeds/*.py, after confirming them in a scratch copy of /repo:
builds, stable tests pass, demo fails with the change and passes without. usage: seedgen.py [-check] [id...]"""
import glob,json,os,re,shutil,subprocess,sys
V='/verif'
DEMO='''#!/bin/sh
# exit 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
printf '{"Replace":{"%%s/%%s/zz_seed_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "%(pkg)s" "$d" > "$t/ov.json"
timeout 200 go test -vet=off -count=1 -timeout 150s -overlay "$t/ov.json" -run 'TestSeedDemo$' ./%(pkg)s
r=$?
rm -f "$t/ov.json"
rmdir "$t"
exit $r
'''
HEAD={'.':'''package xpdf_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strings"
	"testing"

	"github.com/mazzegi/xpdf"
	"github.com/mazzegi/xpdf/engine"
	"github.com/mazzegi/xpdf/font"
	"github.com/mazzegi/xpdf/hyphenation"
	"github.com/mazzegi/xpdf/xdoc"
)

// rec is the PDF engine with a log of what is drawn.
type rec struct {
	*engine.FPDF
	log []string
	off bool
}

func (r *rec) add(format string, a ...any) { r.log = append(r.log, fmt.Sprintf(format, a...)) }
func (r *rec) WriteText(s string) {
	x, y := r.GetXY()
	r.add("p%d text %.2f %.2f %q", r.CurrentPage(), x, y, s)
	r.FPDF.WriteText(s)
}
func (r *rec) FillRect(x, y, w, h float64) {
	r.add("p%d rect %.2f %.2f %.2f %.2f", r.CurrentPage(), x, y, w, h)
	r.FPDF.FillRect(x, y, w, h)
}
func (r *rec) PutImage(s string, x, y, w, h float64) { r.add("p%d image %.2f %.2f %.2f %.2f", r.CurrentPage(), x, y, w, h) }

const page = "<page><format>a4</format><orientation>portrait</orientation><margins><left>20</left><top>10</top><right>15</right><bottom>25</bottom></margins></page>"

func process(t *testing.T, doc string, patterns string) *rec {
	t.Helper()
	d, err := xdoc.Load(strings.NewReader("<document>" + doc + "</document>"))
	if err != nil {
		t.Fatal(err)
	}
	e, err := engine.NewFPDF(font.NewRegistry(), d)
	if err != nil {
		t.Fatal(err)
	}
	h, err := hyphenation.Load(strings.NewReader(patterns))
	if err != nil {
		t.Fatal(err)
	}
	r := &rec{FPDF: e}
	var b bytes.Buffer
	if err := xpdf.NewProcessor(r, h, d, ".").Process(&b); err != nil {
		t.Fatal(err)
	}
	return r
}

type op struct {
	page       int
	kind       string
	x, y, w, h float64
	s          string
}

func (r *rec) ops(kind string) []op {
	var os []op
	for _, l := range r.log {
		var o op
		fmt.Sscanf(l, "p%d %s", &o.page, &o.kind)
		if o.kind != kind {
			continue
		}
		if kind == "text" {
			fmt.Sscanf(l, "p%d text %f %f %q", &o.page, &o.x, &o.y, &o.s)
		} else {
			fmt.Sscanf(l, "p%d "+kind+" %f %f %f %f", &o.page, &o.x, &o.y, &o.w, &o.h)
		}
		os = append(os, o)
	}
	return os
}

func near(a, b float64) bool { return math.Abs(a-b) < 0.05 }
'''}
def sh(c,cwd=None,t=400):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
def main():
    seeds={}
    for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
        exec(open(f).read(),{'S':seeds})
    a=[x for x in sys.argv[1:] if not x.startswith('-')]
    check='-check' in sys.argv
    ids=a or [i for i in seeds if not os.path.exists(V+'/seeded/'+i)]
    base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for i in ids:
        s=seeds[i]
        w='/tmp/seedrepo'
        shutil.rmtree(w,ignore_errors=True)
        sh('cp -a /repo '+w)
        for f,old,new in s['edits']:
            p=w+'/'+f
            t=open(p).read()
            if t.count(old)!=1: print(i,'edit does not match once:',f,repr(old),t.count(old)); break
            open(p,'w').write(t.replace(old,new))
        else:
            dst=V+'/seeded/'+i
            os.makedirs(dst,exist_ok=True)
            diff=sh('git diff',w).stdout
            open(dst+'/patch.diff','w').write(diff)
            pkg=s.get('pkg','.')
            open(dst+'/demo.sh','w').write(DEMO%{'pkg':pkg})
            os.chmod(dst+'/demo.sh',0o755)
            head=s.get('head',HEAD.get(pkg,''))
            body=head+s['demo']
            for imp in re.findall(r'^\t"([^"]+)"$',body,re.M):
                n=imp.split('/')[-1]
                if not re.search(r'\b'+n+r'\.',body.split(')\n',1)[1]):
                    body=body.replace('\t"'+imp+'"\n','',1)
            open(dst+'/demo_test.go.txt','w').write(body)
            json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(dst+'/meta.json','w'),indent=1)
            env='. /opt/vp/env.sh; '
            b=sh(env+'go build ./... && go test -vet=off -count=1 ./... 2>&1',w)
            d1=sh('sh '+dst+'/demo.sh',w)
            d0=sh('sh '+dst+'/demo.sh','/repo')
            ok=b.returncode==0 and d1.returncode!=0 and d0.returncode==0
            bf='build failed' in d1.stdout+d1.stderr
            print(i,'OK' if ok and not bf else 'BAD build+tests=%d demo with=%d without=%d'%(b.returncode,d1.returncode,d0.returncode),flush=True)
            if not ok or bf:
                print((b.stdout+b.stderr)[-800:] if b.returncode else '', d0.stdout[-1500:]+d0.stderr[-500:] if d0.returncode else '', d1.stdout[-800:] if d1.returncode==0 or bf else '')
            if check and ok:
                c=sh('REPO=%s sh %s/check.sh %s quick'%(w,V,s['property']),V,900)
                hit=c.returncode==1 and 'VIOLATION property='+s['property'] in c.stdout
                rp=V+'/tools/seed_results.json'
                r=json.load(open(rp)) if os.path.exists(rp) else {}
                r[i]='caught: '+[l.strip() for l in c.stdout.split('\n') if l.startswith('  ')][0].split(' (')[0] if hit else 'missed'
                json.dump(r,open(rp,'w'),indent=1,sort_keys=True)
                print('   ',s['property'],'caught' if c.returncode==1 and 'VIOLATION property='+s['property'] in c.stdout else 'MISSED rc=%d'%c.returncode,'|',' '.join(l.strip() for l in c.stdout.split('\n') if l.startswith('  '))[:200],'|',(c.stdout+c.stderr)[-150:].replace('\n',' '),flush=True)
        shutil.rmtree(w,ignore_errors=True)
main()
