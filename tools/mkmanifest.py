#!/usr/bin/env python3
import json, os
V='/verif'
proof = os.path.exists(f'{V}/vc/run.py')
ids=[json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
try: notes=json.load(open(f'{V}/tools/level_notes.json'))
except OSError: notes={}
checks=[]
for i in ids:
    n=notes.get(i,{})
    checks.append(dict(property=i,quick_cmd=f'./check.py {i} quick',thorough_cmd=f'./check.py {i} thorough',evidence_file=f'evidence/{i}.json',
        technique=n.get('technique','contracts on the real functions, obligations generated from rustc MIR and discharged by Z3/cvc5' if proof else 'executable contracts on the real crates'),
        level=n.get('level','proof' if proof else 'exploration'),
        level_note=n.get('note','see DESIGN.md')))
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=[],notes='See DESIGN.md. Fix commits and known findings: known_findings.txt.'),open(f'{V}/MANIFEST.json','w'),indent=1)
