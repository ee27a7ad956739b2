#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, level=None, note=None, na=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, observe=observe))

exec(open('props.py').read())

with open('properties.jsonl', 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='./build.sh', checks=[], not_applicable=[])
for p in P:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        m['checks'].append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
            thorough_cmd='./check.sh %s thorough' % p['id'], technique=p['technique'], level=p['level'], level_note=p['note']))
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
