"""writes properties.jsonl and MANIFEST.json from ctlcheck/props.py (and tools/na.json)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ctlcheck.props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = json.load(open(os.path.join(root, 'tools', 'na.json'))) if os.path.exists(os.path.join(root, 'tools', 'na.json')) else []
lines = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    assert len(p['title']) <= 80, (pid, len(p['title']))
    lines.append(dict(id=pid, title=p['title'], statement=p['statement'],
                      quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['tests'],
                      anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']],
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                                   observe_at=p.get('observe', []), hook_needed=None)))
for x in na:
    lines.append(x['property_line'])
lines.sort(key=lambda d: d['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for l in lines:
        f.write(json.dumps(l) + '\n')
man = dict(version=1, setup_cmd='python3 -m compileall -q ctlcheck drivers',
           checks=[dict(property=pid, quick_cmd='python3 -m ctlcheck.main %s --tier quick' % pid,
                        thorough_cmd='python3 -m ctlcheck.main %s --tier thorough' % pid,
                        evidence_file='evidence/%s.json' % pid,
                        technique=PROPS[pid]['technique'], level='other', level_note=PROPS[pid]['level_note'])
                   for pid in sorted(PROPS)],
           not_applicable=[dict(property=x['property_line']['id'], reason=x['reason']) for x in na],
           notes='Static analysis only: the repository source is parsed and abstractly interpreted, never imported or run. '
                 'See DESIGN.md.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed', len(na), 'not applicable')
