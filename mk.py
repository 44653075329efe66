#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None, note='', theorems=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [state]
    if observe:
        a['observe_at'] = [observe]
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), note))


def na(pid, reason):
    NA.append(dict(property=pid, reason=reason))


exec(open(os.path.join(HERE, 'props.py')).read())

TECH = ('contract-based deductive verification of the real code: requires/ensures/loop invariants on LLVM IR that clang produces from '
        "/repo's current sources on every run, obligations discharged by an exact normal form, z3 and cvc5")
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, _ in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
claimed = [(d, n) for d, n in P if d['id'] not in [x['property'] for x in NA]]
man = dict(version=1, setup_cmd='true', hooks=dict(guard='none', enable='none: no hooks in /repo', source_commits=[]),
           checks=[dict(property=d['id'], quick_cmd=f'./check.py {d["id"]}', thorough_cmd=f'VERIF_TIER=thorough ./check.py {d["id"]}',
                        technique=TECH, level='proof', level_note=n, evidence_file=f'evidence/{d["id"]}.json') for d, n in claimed],
           not_applicable=NA,
           notes='No hooks: private members are reached by wrapper translation units under /verif/contracts. /repo carries "fix:" commits only (see known_findings.json).')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(claimed), 'claimed')
