"""python3 -m ctlcheck.main <property id> [--tier quick|thorough]

Decides one property from the source under /repo/src and prints
  VIOLATION property=<id> replay=<path>      (exit 1)   a construct breaks the property
  KNOWN-FINDING: property=<id> <what>        (exit 0)   a listed finding of the unchanged tree
Anything that prevents the analysis from giving an answer ends with exit 2.
"""
import json
import os
import sys
import time
import traceback

from .interp import AnalysisBroken
from . import runner
from .props import PROPS

VERIF = runner.VERIF
EVID = os.path.join(VERIF, 'evidence')


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def rel(p):
    for root in (runner.REPO, VERIF):
        if p and p.startswith(root + os.sep):
            return os.path.relpath(p, root)
    return p


def fmt_site(s):
    return '%s:%s in %s' % (rel(s[0]), s[1], s[2])


def run(pid, tier):
    spec = PROPS[pid]
    t0 = time.time()
    findings = []           # dicts: key, what, where, path
    obligations = {}
    undecided = []
    stats = dict(functions=set(), files=set(), statements=0, callsites=0, forks=0, joins=0, fixpoints=0, drivers=0)
    unmod = {}
    drv_status = {}
    mods = list(spec.get('drivers', []))
    if tier == 'thorough':
        mods += spec.get('thorough', [])
    mods = [(m, False) for m in mods]
    mods += [(m, True) for m in spec.get('lasting', []) + (spec.get('lasting_thorough', []) if tier == 'thorough' else [])]
    for entry, lasting in mods:
        mod, only = (entry, None) if isinstance(entry, str) else (entry[0], set(entry[1]))
        r = runner.run_driver_module(mod, only, max_steps=spec.get('steps', 3000000), lasting=lasting)
        for v in r.violations:
            name = v.driver
            where = [fmt_site(s) for s in v.sites if s]
            calls = ['%s (%s:%s) called from driver line %s' % (c[0], rel(c[1]), c[2], c[3]) for c in v.stack]
            findings.append(dict(key='%s: %s' % (name, v.msg), what=v.msg, driver=name, driver_line=v.line,
                                 detail=v.detail, construct=where or calls[-1:], path=calls))
        obligations.update(r.obl)
        undecided.extend(r.undecided)
        drv_status.update({mod + '.' + k: v for k, v in r.drivers.items()})
        stats['functions'] |= set(r.stats['function_names'])
        stats['files'] |= set(r.stats['files'])
        for k in ('statements', 'callsites', 'forks', 'joins', 'fixpoints'):
            stats[k] += r.stats[k]
        for k, n in r.stats['unmodelled'].items():
            unmod[k] = unmod.get(k, 0) + n
    rules = {}
    for rule in spec.get('rules', []):
        rr = rule(tier)
        rules[rr['rule']] = rr['coverage']
        for f in rr['findings']:
            findings.append(f)
        stats['files'] |= set(rr.get('files', []))
    if spec.get('drivers') and not any(o[0] or o[1] for o in obligations.values()):
        raise AnalysisBroken('no obligation was decided')
    known = [k for k in known_findings() if k.get('property') == pid and not k.get('fixed')]
    bad, kn = [], []
    for f in findings:
        m = [k for k in known if k['key'] == f['key']]
        (kn if m else bad).append((f, m[0] if m else None))
    n_true = sum(1 for o in obligations.values() if o[0] and not o[1] and not o[2])
    n_und = sum(1 for o in obligations.values() if o[2] and not o[1])
    n_false = sum(1 for o in obligations.values() if o[1])
    cov = dict(
        explanation=spec['explanation'],
        rule=spec['rule'],
        drivers=len(drv_status),
        obligations=len(obligations),
        obligations_held_on_every_path=n_true,
        obligations_undecided_on_some_path=n_und,
        obligations_violated=n_false,
        path_evaluations=sum(sum(o) for o in obligations.values()),
        functions_analysed=len(stats['functions']),
        functions=sorted(stats['functions'])[:200],
        files=sorted(stats['files']),
        statements_analysed=stats['statements'],
        call_sites_analysed=stats['callsites'],
        state_forks=stats['forks'], state_joins=stats['joins'], loop_fixpoints=stats['fixpoints'],
        syntactic_rules=rules,
        unmodelled_library_calls=unmod,
        undecided_samples=[list(u) for u in sorted(set(undecided))[:10]],
        samples=[('%s line %d: %s' % (k[0], k[1], o)) for k, o in list(sorted(obligations.items()))[:8]],
        driver_status=drv_status,
    )
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other', coverage=cov,
              assumptions=spec.get('assumptions', DEFAULT_ASSUMPTIONS), wall_s=round(time.time() - t0, 3),
              violations=len(bad))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for f, k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if bad:
        rp = os.path.join(EVID, pid + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump([f for f, _ in bad], fh, indent=1, default=str)
        for f, _ in bad[:20]:
            print('  %s' % f['what'])
            print('    at: %s' % '; '.join(f['construct'] or ['?']))
            if f.get('detail'):
                print('    %s' % str(f['detail'])[:400])
            for c in f.get('path', []):
                print('    via %s' % c)
            if f.get('driver'):
                print('    obligation: drivers/%s line %s' % (f['driver'], f['driver_line']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('property %s: %d obligations (%d held on every path, %d undecided), %d functions, %d call sites, %.1fs' %
          (pid, len(obligations), n_true, n_und, len(stats['functions']), stats['callsites'], time.time() - t0))
    return 0


DEFAULT_ASSUMPTIONS = [
    'numpy and the Python built-ins behave as summarised in ctlcheck/libmodel.py and ctlcheck/arrays.py',
    'generic extents stand for distinct sizes >= 2; array contents are arbitrary',
    'structures (numbers of tensors and legs) are those constructed in the driver programs',
    'an obligation whose outcome depends on something outside the model is counted as undecided, not as a violation',
]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        rc = run(pid, tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: internal error')
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
