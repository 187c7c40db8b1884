#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the metadata below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X, T, I, L, U, X18, D = ('kajiki/xml_template.py', 'kajiki/template.py', 'kajiki/ir.py', 'kajiki/loader.py',
                         'kajiki/util.py', 'kajiki/i18n.py', 'kajiki/doctype.py')
TX, E, H, N = 'kajiki/text.py', 'kajiki/entities.py', 'kajiki/html_utils.py', 'kajiki/lnotab.py'
P = []


def prop(id, title, statement, over, quant, why, files, mech, note=''):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    NOTES[id] = note


NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'meta.py')).read())

LEVEL = ('Bounded and exhaustive within the bounds: every path of the real code under symbolic inputs is explored and '
         'each assertion is decided by z3 for all values (a sample of the queries again by cvc5, sampled paths '
         'replayed natively). Trusts the models of Python builtins and expat in /verif/symkj and the reference '
         'semantics in /verif/props. ')
checks = []
for p in P:
    checks.append(dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'],
                       thorough_cmd='bash run.sh %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique='symbolic execution of the real Python source with SMT (z3, cvc5 cross-check)',
                       level='model_checking', level_note=LEVEL + NOTES[p['id']]))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NA,
           hooks=dict(guard='none', enable='no hooks: the checks instrument the source in memory at import time',
                      source_commits=[]),
           notes='known_findings.json lists recorded defects and repaired ones; see DESIGN.md.')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
    for p in NAP:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(HERE, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), ps)
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
for p in P:
    assert os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')), p['id']
print(len(P), 'claimed,', len(NA), 'not applicable')
