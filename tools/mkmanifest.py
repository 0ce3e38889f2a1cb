#!/usr/bin/env python3
"""Writes MANIFEST.json and contracts/lemmas.txt from the contracts and the lists below."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
subprocess.check_call(['bash','check.sh','build'])
lem = subprocess.check_output(['.build/gv','list','-repo','/repo','-verif',os.getcwd()],text=True)
open('contracts/lemmas.txt','w').write(lem)
claimed = sorted({l.split()[0] for l in lem.splitlines() if l.strip()})
notes = json.load(open('tools/notes.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    n = notes.get(i, {})
    if i in claimed and not n.get('drop'):
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'technique': 'contract-based deductive verification of the Go SSA (own VC generator, z3/cvc5)',
            'level': 'proof',
            'level_note': n.get('note', 'Every obligation generated from the current source is discharged by an SMT solver; see DESIGN.md for the trusted base.'),
            'theorems': [l.split()[1] for l in lem.splitlines() if l.startswith(i+' ')],
        })
    else:
        na.append({'property': i, 'reason': n.get('na', 'contracts not finished')})
m = {'version': 1, 'setup_cmd': 'bash check.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json','w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
