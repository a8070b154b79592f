#!/usr/bin/env python3
# Writes DESIGN.md from its hand-written parts and the headers of the harnesses.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root+'/tools/design_head.md').read()
for l in open(root+'/properties.jsonl'):
    p = json.loads(l); i = p['id']
    d = f'{root}/harness/{i.lower()}'
    if not os.path.isdir(d): continue
    txt = [x for f in sorted(os.listdir(d)) for x in open(d+'/'+f)]
    get = lambda k: ' / '.join(x[len('// '+k+':'):].strip() for x in txt if x.startswith('// '+k+':'))
    entries = [x.split()[1].split('(')[0] for x in txt if x.startswith('func H') and x.split()[1].split('(')[0][1:2].isupper()]
    out += f"### {i} {p['title']}\n\nAnchors: {', '.join(p['anchors']['files'])}. Entries: {', '.join(entries)}.\n\nBounds: {get('bounds')}.\n\n"
    if get('assume'): out += f"Assumed: {get('assume')}.\n\n"
    out += f"Outside: {get('outside')}.\n\n"
out += open(root+'/tools/design_tail.md').read()
res = root+'/tools/seed_results.json'
if os.path.exists(res):
    r = json.load(open(res))
    t = '| planted bug | property | needs | verdict of the check |\n|---|---|---|---|\n'
    for k in sorted(os.listdir(root+'/seeded')):
        m = json.load(open(f'{root}/seeded/{k}/meta.json'))
        t += f"| {k} | {m['property']} | {m['needs']} | {r.get(k,'not run')} |\n"
    out = out.replace('@@SEEDS@@', t)
open(root+'/DESIGN.md','w').write(out)
