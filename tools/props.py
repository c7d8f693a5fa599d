"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'pyogp/lib/base/'
P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=B + w) for n, w in mech],
                                **({'state': state} if state else {}))), note))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

NA = []
TECH = ('symbolic execution of the real Python source (AST re-read from /repo on every run) with z3 deciding every branch and '
        'assertion; counterexamples replayed under Jython')
GEN = ('Bounded: every path within the stated bounds is explored and each assertion is decided by z3 for all values on it; sampled path '
       'models are re-run in the real code and must agree. Trusts the engine\'s model of Python 2/Jython semantics and of library '
       'calls, and z3. ')

props, checks, na = [], [], []
for p, note in sorted(P, key=lambda x: x[0]['id']):
    if not glob.glob(os.path.join(HERE, 'harness', p['id'].lower() + '_*.py')):
        print('no harness yet:', p['id'])
        continue
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
    for f in p['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
    props.append(p)
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='model_checking', level_note=GEN + note))
for p, reason in NAP:
    props.append(p)
    na.append(dict(property=p['id'], reason=reason))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: /repo carries only "fix:" commits. See DESIGN.md; known-findings.jsonl lists repaired and open findings.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
