"""Abstract interpretation of driver modules."""
import os
import sys
import time

from .values import *
from .interp import Program, State, Interp, Fr, Exc, Budget, AnalysisBroken
from . import libmodel
from . import intrinsics

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DRIVERS = os.path.join(VERIF, 'drivers')
REPO = os.environ.get('CTLCHECK_REPO', '/repo')

sys.setrecursionlimit(20000)
TIME_LIMIT = 400          # seconds for one driver function; then its open obligations are undecided


class Result(object):
    def __init__(self):
        self.violations = []
        self.obl = {}
        self.undecided = []
        self.drivers = {}       # name -> status
        self.stats = {}


def new_interp(extra, debug=False, max_steps=3000000):
    prog = Program(os.path.join(REPO, 'src'), extra)
    I = Interp(prog, max_steps)
    I.lib = libmodel
    I.frozen = []
    I.last_calls = []
    I.debug = debug
    return I


class Ready(object):
    """a driver module whose top level has been interpreted, with the repository modules it imports"""

    def __init__(self, mod, debug=False, max_steps=3000000, lasting=False):
        self.mod = mod
        self.lasting = lasting
        name = 'drv_' + mod
        extra = {name: os.path.join(DRIVERS, mod + '.py')}
        for f in os.listdir(DRIVERS):
            if f.startswith('lib_') and f.endswith('.py'):
                extra[f[:-3]] = os.path.join(DRIVERS, f)
        I = self.I = new_interp(extra, debug, max_steps)
        rec = self.rec = intrinsics.Recorder()
        intrinsics.register(I, rec)
        from . import stubs
        stubs.register(I, rec)
        self.stubs = stubs

        def on_call(st, f, args, kwargs, node, I_):
            if I.stack and I.stack[-1][1].startswith(DRIVERS) and not f.info.file.startswith(DRIVERS):
                if any(getattr(d, 'id', '') == 'property' for d in getattr(f.info.node, 'decorator_list', [])):
                    return
                I.last_calls.append((f.info.qual, f.info.file, f.info.node.lineno, getattr(node, 'lineno', 0)))
        I.on_call.append(on_call)
        st = State()
        outs = I.import_module(st, name)
        self.base = None
        for s, v in outs:
            if isinstance(v, Exc):
                raise AnalysisBroken('abstract import of %s fails: %r at %r' % (name, v, v.site))
            self.base = s
        I.base_heap = dict(self.base.heap)
        I.repo_dir = REPO
        fr_oid = I.module_frame(name)
        self.funcs = [(k, v) for k, v in self.base.heap[fr_oid].vars.items() if k.startswith('d_') and isinstance(v, Fn)]
        self.funcs.sort(key=lambda kv: kv[1].info.node.lineno)

    def run(self, fname, fn, status):
        I, rec = self.I, self.rec
        rec.driver = self.mod + '.' + fname
        I.frozen = []
        I.last_calls = []
        I.steps = 0
        I.nforks = I.njoins = I.nfix = 0
        I.deadline = time.time() + TIME_LIMIT
        I.ctx, I.stack = [], []
        t0 = time.time()
        s = self.base.clone()
        self.stubs.reset(I)
        try:
            r = I.call(s, fn, [], {}, fn.info.node)
        except Budget as e:
            status[fname] = 'undecided: %s' % e
            I.ctx, I.stack = [], []
            rec.undecided.append((rec.driver, 0, 'budget', str(e)))
            return
        except RecursionError:
            status[fname] = 'undecided: recursion'
            I.ctx, I.stack = [], []
            rec.undecided.append((rec.driver, 0, 'recursion', ''))
            return
        npaths = len(r)
        if self.lasting:
            rec.violations, rec.obl, rec.undecided = {}, {}, []
            for s2, v in r:
                intrinsics.check_lasting(I, rec, s2)
            status[fname] = 'paths=%d steps=%d time=%.2f' % (npaths, I.steps, time.time() - t0)
            return
        for s2, v in r:
            if isinstance(v, Exc):
                if v.site and v.site[0].startswith(DRIVERS) and v.cname in ('NameError',):
                    raise AnalysisBroken('driver bug: %r %r' % (v, v.site))
                if intrinsics.fuzzy(s2):
                    rec.undecided.append((rec.driver, 0, 'exception %r' % (v,), repr(v.site)))
                    continue
                rec.mark(0, False)
                rec.violate(0, 'the operation raises %s' % v.cname, '%s at %s' % (v.msg, v.site), [list(x) for x in I.last_calls][-4:], [v.site] if v.site else [])
        if not r:
            rec.undecided.append((rec.driver, 0, 'no path', ''))
        status[fname] = 'paths=%d steps=%d time=%.2f' % (npaths, I.steps, time.time() - t0)

    def report(self, status):
        I, rec = self.I, self.rec
        res = Result()
        res.drivers = status
        res.violations = list(rec.violations.values())
        res.obl = rec.obl
        res.undecided = rec.undecided
        res.stats = dict(function_names=sorted(q for q in I.visited_funcs if q.startswith('CTL')),
                         stmts=set(I.visited_stmts), calls=set(I.callsites), forks=I.nforks, joins=I.njoins,
                         fixpoints=I.nfix, files=prog_files(I), unmodelled=dict(I.unmodelled))
        return res


READY = None


def _task(i):
    """in a forked child: interpret one driver function"""
    fname, fn = READY.funcs[i]
    status = {}
    try:
        READY.run(fname, fn, status)
    except AnalysisBroken as e:
        return ('broken', str(e))
    except Exception as e:      # the analyser itself failed on a construct: nothing is concluded from this driver
        import traceback
        if os.environ.get('CTLCHECK_STRICT'):
            traceback.print_exc()
        READY.rec.undecided.append((READY.rec.driver, 0, 'analyser error', '%s: %s' % (type(e).__name__, str(e)[:200])))
        READY.rec.violations = {}
        status[fname] = 'analyser error'
    r = READY.report(status)
    # a child may interpret several functions: report each one once
    READY.rec.violations, READY.rec.obl, READY.rec.undecided = {}, {}, []
    r.stats['stmts'] = frozenset(hash(x) if not isinstance(x, (int, str, tuple)) else x for x in r.stats['stmts'])
    return ('ok', r)


def run_driver_module(mod, only=None, debug=False, verbose=False, max_steps=3000000, jobs=None, lasting=False):
    """interpret every function d_* of drivers/<mod>.py; -> Result"""
    global READY
    READY = Ready(mod, debug, max_steps, lasting)
    idx = [i for i, (k, f) in enumerate(READY.funcs) if not only or k in only]
    if jobs is None:
        jobs = int(os.environ.get('CTLCHECK_JOBS', '8'))
    out = []
    if debug or jobs <= 1 or len(idx) <= 1:
        for i in idx:
            out.append(_task(i))
    else:
        import multiprocessing
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(min(jobs, len(idx)), mp_context=multiprocessing.get_context('fork')) as pool:
            out = list(pool.map(_task, idx))
    res = Result()
    st = dict(function_names=set(), stmts=set(), calls=set(), forks=0, joins=0, fixpoints=0, files=set(), unmodelled={})
    for kind, r in out:
        if kind == 'broken':
            raise AnalysisBroken(r)
        res.violations.extend(r.violations)
        for k, o in r.obl.items():
            m = res.obl.setdefault(k, [0, 0, 0])
            for j in range(3):
                m[j] += o[j]
        res.undecided.extend(r.undecided)
        res.drivers.update(r.drivers)
        for k in ('function_names', 'stmts', 'calls', 'files'):
            st[k] |= set(r.stats[k])
        for k in ('forks', 'joins', 'fixpoints'):
            st[k] += r.stats[k]
        for k, n in r.stats['unmodelled'].items():
            st['unmodelled'][k] = st['unmodelled'].get(k, 0) + n
        if verbose:
            for k, v in r.drivers.items():
                print('%-40s %s' % (k, v))
    st['statements'] = len(st.pop('stmts'))
    st['callsites'] = len(st.pop('calls'))
    st['functions'] = len(st['function_names'])
    st['function_names'] = sorted(st['function_names'])
    res.stats = st
    return res


def prog_files(I):
    return sorted(os.path.relpath(p, REPO) for m, p in I.prog.files.items() if p and p.startswith(REPO + os.sep))


if __name__ == '__main__':
    mod = sys.argv[1]
    only = set(a for a in sys.argv[2:] if not a.startswith('-')) or None
    r = run_driver_module(mod, only, debug='-d' in sys.argv, verbose=True, lasting='-l' in sys.argv)
    for v in r.violations:
        print('VIOL %s:%d %s | %s | stack=%s sites=%s' % (v.driver, v.line, v.msg, v.detail, v.stack, v.sites))
    for u in sorted(set(r.undecided)):
        print('UNDEC', u)
    print('obligations', len(r.obl), 'true', sum(1 for o in r.obl.values() if o[0] and not o[1] and not o[2]))
    print('unmodelled', r.stats['unmodelled'])
    print({k: v for k, v in r.stats.items() if k not in ('function_names', 'files', 'unmodelled')})
