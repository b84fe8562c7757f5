#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when it changes)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, note, technique='symbolic execution of the LLVM IR of the real program (own engine + z3)'):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


exec(open(V + '/lib/proptable.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(dict(id=x['id'], title=x['title'], statement=x['statement'], quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'], anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))) + '\n')
man = dict(version=1, setup_cmd='bash /verif/engine/build.sh && true', checks=[], not_applicable=NA)
man['setup_cmd'] = "python3 -c \"import sys; sys.path.insert(0,'lib'); import vk; vk.ensure_engine()\""
for x in P:
    if x['id'] in [n['property'] for n in NA]:
        continue
    man['checks'].append(dict(property=x['id'], quick_cmd='python3 check.py %s --tier quick' % x['id'], thorough_cmd='python3 check.py %s --tier thorough' % x['id'], technique=x['technique'], level='model_checking', level_note=x['note']))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
