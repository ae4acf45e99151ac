#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing; both results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'Unit tests evaluate one or two hand-made cells, states or lists and compare a few printed numbers; the claim is about every content of the input arrays, every dimension and every size.'
P = []      # (id, title, statement, over, text, why, files, mechanisms)
NA = []


def prop(pid, title, statement, over, text, files, mech, why=TESTS, tech=None, note=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': ['src/' + f for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, tech, note))


exec(open(os.path.join(V, 'tool', 'meta_props.py')).read())

VN = ('abstract interpretation of the type-checked syntax tree by gated value numbering: every assignment becomes a normal form over the inputs, conditions become gates, loops become '
      'index-quantified summaries, and each result cell is compared with the required normal form; nothing is executed and no solver is used')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + '\n')
    for d, _ in NA:
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': [],
       'notes': 'All checks read /repo/src through clang 18 on every run (bin/astx, rebuilt by setup_cmd when its source changes). Exit 0: held; exit 1 + VIOLATION: a construct breaks the property.'}
for d, tech, note in P:
    man['checks'].append({'property': d['id'], 'quick_cmd': 'python3-vt check.py %s' % d['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % d['id'],
                          'technique': 'static analysis: ' + (tech or VN), 'level': 'other',
                          'level_note': note or 'For all inputs in exact real arithmetic, for the listed template instances; rounding is outside.'})
for d, why in NA:
    man['not_applicable'].append({'property': d['id'], 'reason': why})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'claimed', len(NA), 'not applicable')
