"""writes the 'fixed' entries of known_findings.json from the fix: commits of /repo"""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in '''eaebdc3 C07
d2a843c C04
3987445 C07
01f23e7 C22
b362af3 C07
a27dcfc C07
dd65d28 C22
a825767 C04
3ac5538 C03
3ee9946 C22
d3523ee C06
f0c8942 C22
03ff11e C22
c7950a5 C07
4ae13d3 C06
52202fd C03
44d735a C05
c8845a4 C11
b84f441 C10
346ea4f C10
087abac C08
202b3a1 C11
af5ff13 C19
6b1ed38 C25
80a11fc C11
65b7dc1 C11
f31b229 C05
6258504 C05
4b95e87 C18
17fb5d5 C25
4a1131d C23
4264d3d C21
fbf40ed C18
f7cc264 C28
464688d C27
ae15832 C19
4327dbf C07
a73c710 C07
28a3a71 C08
c0219d1 C28
4613f7d C11'''.splitlines())
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '19351b6..HEAD'], text=True).splitlines()
path = os.path.join(root, 'known_findings.json')
keep = [k for k in json.load(open(path)) if not k.get('fixed')]
out = []
for l in log:
    h, m = l.split(' ', 1)
    if not m.startswith('fix: '):
        continue
    if h not in PROP:            # reverted later
        continue
    p = PROP[h]
    out.append(dict(property=p, key=h, fixed=True, commit=h, what='fixed: property=%s %s %s' % (p, h, m[5:])))
json.dump(keep + out, open(path, 'w'), indent=1)
print(len(out))
