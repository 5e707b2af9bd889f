"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import glob
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS  # noqa

ROOT = os.path.dirname(HERE)
TRUST = ('Proof for all inputs, by symbolic execution of the unmodified '
         'functions with every obligation discharged by SMT (z3, cvc5); '
         'assumes the contracts of the third-party libraries and the '
         'executor itself, both cross-checked on every run by executing the '
         'same lemmas concretely under PyPy. Scope: ')
done = {os.path.basename(f)[:3].upper()
        for f in glob.glob(ROOT + '/specs/c[0-9]*_*.py')}
with open(ROOT + '/properties.jsonl', 'w') as f:
    for p in sorted(PROPS, key=lambda p: p['id']):
        q = {k: v for k, v in p.items() if not k.startswith('_')}
        f.write(json.dumps(q) + '\n')
checks, missing = [], []
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    if i not in done or p.get('_na'):
        missing.append({'property': i, 'reason': p.get('_na') or
                        'no contracts written yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
        'technique': 'contract-based deductive verification of the real '
        'code (symbolic execution to SMT obligations, counterexamples '
        'replayed on the real interpreter)',
        'level': 'proof',
        'level_note': TRUST + (p['_note'] or p['quantifier']['text']),
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': missing,
     'notes': 'No hooks in /repo are needed. See DESIGN.md.'}
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(missing), 'not claimed')
