"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = [observe]
    if hook:
        a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')

checks = []
for p in P:
    if p['id'] in NA:
        continue
    if not os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')):
        print('no check for', p['id'])
        continue
    checks.append(dict(
        property=p['id'],
        quick_cmd='python3 /verif/check.py %s --tier quick' % p['id'],
        thorough_cmd='python3 /verif/check.py %s --tier thorough' % p['id'],
        technique='deterministic simulation with fault injection: ' + TECH[p['id']][0],
        level='exploration',
        level_note=TECH[p['id']][1]))
claimed = set(c['property'] for c in checks)
na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P if p['id'] not in claimed]
m = dict(version=1, setup_cmd='bash /opt/vp/build.sh', hooks=dict(guard='', enable='', source_commits=[]),
         checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
