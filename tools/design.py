"""assembles DESIGN.md: tools/design_head.md, one section per property from ctlcheck/props.py, findings, planted bugs, tools/design_tail.md"""
import json, os, sys, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from ctlcheck.props import PROPS, EXPL
out = [open(os.path.join(root, 'tools', 'design_head.md')).read().rstrip() + '\n']
naf = os.path.join(root, 'tools', 'na.json')
na = json.load(open(naf)) if os.path.exists(naf) else []
seeds = {}
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split(os.sep)[-2], m))
out.append('## 2. The properties\n')
for pid in sorted(PROPS):
    p = PROPS[pid]
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('*Statement.* ' + p['statement'] + '\n')
    out.append('*Quantifies over* ' + p['qtext'] + '. *Why tests cannot settle it:* ' + p['tests'] + '.\n')
    out.append('*Method.* ' + p['technique'] + '. ' + p.get('what', '') + '\n')
    out.append('*Rule / oracle.* ' + p.get('rule', 'the expectations written in the drivers') + '.\n')
    out.append('*Bounds and strength.* ' + p['level_note'] + '\n')
    out.append('*Machinery.* drivers ' + ', '.join('`drivers/%s.py`' % d for d in p.get('drivers', [])) + '; anchored in ' +
               ', '.join('`%s`' % f for f in p['files']) + '.\n')
    if pid in seeds:
        out.append('*Planted bugs it catches:* ' + ', '.join('`%s`' % s for s, m in seeds[pid] if not m.get('missed')) + '.\n')
if na:
    out.append('### Not applicable\n')
    for x in na:
        out.append('* **%s %s** - %s' % (x['property_line']['id'], x['property_line']['title'], x['reason']))
    out.append('')
out.append('## 3. Findings\n')
kf = json.load(open(os.path.join(root, 'known_findings.json')))
out.append('Recorded, not repaired (files under `src/CTL/examples` count as examples, so commits leave them alone):\n')
for k in kf:
    if not k.get('fixed'):
        out.append('* %s: %s' % (k['property'], k['what']))
out.append('\nRepaired by `fix:` commits in /repo (the checks report each again if it returns):\n')
for k in kf:
    if k.get('fixed'):
        out.append('* %s' % k['what'].replace('fixed: property=', ''))
out.append('\nSeen and left alone, outside the stated properties: a single-tensor MPS with chi=None has chi = -1; `createTensorFromText` tests\n'
           '`islower` only on the first character; an Ising graph with self-loops or negative couplings (the statement of C21 excludes them);\n'
           '`CTMRG.getZ(0)`; `FTN.removeTensor` leaves links of the removed tensor to be rejected at evaluation.\n')
out.append('### Planted bugs (`seeded/`)\n')
out.append('| change | property | needs | caught by |')
out.append('|---|---|---|---|')
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        out.append('| %s | %s | %s | %s |' % (s, pid, m['needs'].replace('|', '/'), m.get('caught_by', pid) if not m.get('missed') else 'missed'))
out.append('')
out.append(open(os.path.join(root, 'tools', 'design_tail.md')).read())
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
