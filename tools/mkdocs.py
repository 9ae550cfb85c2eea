#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from texts.py and props.py
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
import texts, props
with open(V + '/properties.jsonl', 'w') as f:
    for p in texts.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=w) for a, w in p['mech']]))) + '\n')
NOTE = ('Bounded: every path of the real code within the stated bounds is executed symbolically and every branch and assertion is decided by Z3 over all values of the inputs; nothing outside the bounds is claimed. '
        'Trusts clang 18 (source to bitcode), the engine in engine/, Z3 and the reference in the harness; counterexamples are replayed against an ordinary g++ build before they are reported. ')
checks = []; na = list(getattr(texts, 'NA', []))
nas = set(x['property'] for x in na)
for p in texts.P:
    if p['id'] in nas: continue
    assert p['id'] in props.PROPS, p['id']
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique='symbolic execution of the real code (LLVM bitcode) with Z3', level='other', level_note=NOTE + p['note']))
for k in props.PROPS: assert any(p['id'] == k for p in texts.P), k
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed. known_findings.txt lists the repaired and recorded defects.'), open(V + '/MANIFEST.json', 'w'), indent=1)
