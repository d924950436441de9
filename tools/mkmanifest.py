"""Writes /verif/MANIFEST.json from the contract modules that exist."""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '/repo/src')

NOTE = ('Proved for all inputs that satisfy the stated preconditions, over exact reals, for a symbolic number of columns '
        'and for 0, 1 and 3 columns; rounding, infinities and signed zeros are covered only by the bounded runtime companion.')
TECH = 'contract-based deductive verification: symbolic execution of the real functions against pre/postconditions, ' \
       'discharged by a normal-form prover, z3 and cvc5'


def main():
    checks, na = [], []
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        if not os.path.exists(os.path.join(ROOT, 'vp', 'contracts', i.lower() + '.py')):
            na.append(dict(property=i, reason='no contract built yet'))
            continue
        mod = importlib.import_module('vp.contracts.' + i.lower())
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=getattr(mod, 'TECHNIQUE', TECH),
                           level=getattr(mod, 'LEVEL', 'proof'),
                           level_note=(getattr(mod, 'NOTE', '') + ' ' + NOTE).strip()))
    out = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo. known-findings.txt lists the defects repaired by the fix: commits.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(out, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(checks), 'checks', len(na), 'not applicable')


main()
