#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from the PROP/META of checks/*.py
and from checks/not_applicable.json"""
import glob
import importlib.util
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'checks')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def prop(pid, P):
    assert len(P['title']) <= 80, (pid, len(P['title']))
    return dict(id=pid, title=P['title'], statement=P['statement'],
                quantifier=dict(over=P['over'], text=P['text']), why_tests_cant=P['why'],
                anchors=dict(files=P['files'], mechanism=[dict(name=a, where=b) for a, b in P['mech']], hook_needed=None))


props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(HERE, 'checks', '[A-Z][0-9][0-9].py'))):
    pid = os.path.basename(f)[:-3]
    spec = importlib.util.spec_from_file_location(pid, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    props.append(prop(pid, m.PROP))
    checks.append(dict(property=pid, quick_cmd='./run_check.py %s --tier quick' % pid,
                       thorough_cmd='./run_check.py %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
                       technique=m.META.get('technique', 'symbolic execution of the real Python source; SMT (z3) decides each assertion over all inputs within bounds'),
                       level=m.META.get('level', 'model_checking'),
                       level_note='Holds for all values within the bounds: %s. Outside: %s. Trusts: the numpy encoding (replayed against the real code every run), z3, real arithmetic for doubles.'
                                  % (m.META['bounds'], m.META['outside'])))
for d in json.load(open(os.path.join(HERE, 'checks', 'not_applicable.json'))):
    props.append(prop(d['id'], d))
    na.append(dict(property=d['id'], reason=d['reason']))
props.sort(key=lambda d: d['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
    for d in props:
        fp.write(json.dumps(d) + '\n')
json.dump(dict(version=1, setup_cmd='./run_check.py --selftest', checks=checks, not_applicable=na,
               notes='checks/<id>.py hold the harnesses, symx/ the symbolic execution engine; see DESIGN.md'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not applicable')
