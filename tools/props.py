#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.  A property is claimed when contracts/<id>.cpp exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, observe, na=None, note='', over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  na=na, note=note))


exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('na', 'note')}) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'contracts', i + '.cpp')) and not p['na']:
        checks.append(dict(property=i, quick_cmd='python3-vt nvc/check.py %s quick' % i, thorough_cmd='python3-vt nvc/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification of the real C++ (contracts + loop invariants over LLVM IR extracted from /repo, discharged by z3/cvc5)',
                           level='proof', level_note=('Every obligation generated from the current source is discharged for all inputs. Trusted: clang front end, nvc obligation generator, solvers, '
                                                      'contracts assumed on libstdc++/libc functions (listed in evidence). Termination is not proved. ' + p['note']).strip(),
                           theorems=[]))
        del checks[-1]['theorems']
    else:
        na.append(dict(property=i, reason=p['na'] or 'no contract for this property has been completed yet'))
m = dict(version=1, setup_cmd='python3-vt nvc/setup.py', checks=checks, not_applicable=na,
         notes='Checks build everything from /repo\'s working tree in a scratch directory under /tmp and remove it. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed')
