"""Discharges the contracts of one property: python3-vt -m pyv.prove <ID> <out.json> [tier] [budget seconds]

Every run interprets the functions of /repo from their current source over symbolic arguments; an obligation is
discharged when it holds on every path (branches decided by z3 and by the automata library, loops by arbitrary
iteration + havoc, calls by contract)."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

import z3

from . import automata as A
from .explore import STATS, Explorer
from .interp import Interp
from .values import PathEnd, TExc, Unsupported

sys.setrecursionlimit(20000)


class Proof:
    def __init__(self, pid, tier='quick', budget=300):
        self.pid = pid
        self.tier = tier
        self.deadline = time.time() + budget
        self.obs = {}           # name -> dict
        self.functions = {}
        self.trusted = {}
        self.assumptions = []
        self.level = 'proof'
        self.paths = 0
        self.notes = []
        self.known = {}
        self.only = None        # (names, installer): other obligations than these are not generated

    # ---- bookkeeping
    def ob(self, name, function, backend=('symbolic execution', 'z3', 'automata')):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = dict(name=name, function=function, status='discharged', backends=list(backend), detail='',
                                      checked=0)
        return o

    def result(self, name, function, ok, detail='', definite=True):
        o = self.ob(name, function)
        o['checked'] += 1
        if ok:
            return
        st = 'failed' if definite else 'undecided'
        if o['status'] == 'discharged' or (o['status'] == 'undecided' and st == 'failed'):
            o['status'] = st
            o['detail'] = str(detail)[:2000]

    def undecided(self, name, function, detail):
        self.result(name, function, False, detail, definite=False)

    def known_finding(self, name, finding):
        """obligation that a listed finding (known-findings.txt) makes fail"""
        self.known[name] = finding

    def trust(self, what, why):
        self.trusted[what] = why

    def assume(self, what):
        if what not in self.assumptions:
            self.assumptions.append(what)

    # ---- one function
    def verify(self, function, run, obligations=(), hooks=None, contracts=None, models=None, max_paths=30000, label=None,
               budget=None):
        """run(v) executes the function on v.interp; v.require(...) states the postconditions"""
        label = label or function
        if self.only:
            obligations, install = self.only
        ex = Explorer(max_paths=max_paths, deadline=min(self.deadline, time.time() + budget) if budget else self.deadline)
        deferred = []
        for n in obligations:
            self.ob(f'{label}: {n}', function)
        live = [0]

        def one(path):
            v = Run(self, path, function, label, deferred)
            hk = dict(hooks or {})
            ent = hk.get('enter')

            def enter(interp, f):
                q = f'{(f.globals or {}).get("__name__", "")}.{f.qualname}'
                self.functions[q] = self.functions.get(q, 0) + 1
                if ent:
                    ent(interp, f)
            hk['enter'] = enter
            v.interp = Interp(path, contracts(v) if callable(contracts) else contracts or {}, models or {}, hk)
            path.run = v
            if self.only:
                install(v)
            try:
                run(v)
                live[0] += 1
            except PathEnd:
                raise
            except Unsupported as e:
                if 'time limit' in str(e) or 'too many paths' in str(e):
                    raise
                if path.solver is None or path.check() != z3.unsat:
                    where = v.where()
                    for n in obligations:
                        self.undecided(f'{label}: {n}', function, f'{e} ({where})')
            except AssertionError:
                raise
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, NotImplementedError, RecursionError) as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                for n in obligations:
                    self.undecided(f'{label}: {n}', function, f'engine: {e!r} at {tb.filename.rsplit("/", 1)[-1]}:{tb.lineno} ({v.where()})')
                if os.environ.get('PYV_DEBUG'):
                    traceback.print_exc()
        try:
            ex.explore(one)
            for d in deferred:
                d()
            if live[0] == 0:
                for n in obligations:
                    self.undecided(f'{label}: {n}', function, 'no path reaches the end of the function')
        except Unsupported as e:
            for n in obligations:
                self.undecided(f'{label}: {n}', function, str(e))
        except AssertionError as e:
            for n in obligations:
                self.undecided(f'{label}: {n}', function, f'engine: {e!r}')
            if os.environ.get('PYV_DEBUG'):
                traceback.print_exc()
        self.paths += ex.paths
        mine = [o for k, o in self.obs.items() if k.startswith(label + ': ')]
        for o in mine:
            o['paths'] = ex.paths
        if any(o['status'] == 'undecided' for o in mine):
            # the function was not explored completely: a failure may come from what is missing
            for o in mine:
                if o['status'] == 'failed':
                    o['status'] = 'undecided'

    # ---- parallel units
    def units(self, calls, procs=8):
        """calls: list of (function, args); each is run with this Proof in a process of its own"""
        if os.environ.get('PYV_SERIAL'):
            for f, args in calls:
                f(self, *args)
            return
        import multiprocessing
        ctx = multiprocessing.get_context('fork')
        global _UNITS
        _UNITS = (self, calls)
        with ctx.Pool(min(procs, len(calls))) as pool:
            for r in pool.imap_unordered(_unit, range(len(calls))):
                self.merge(r)

    def merge(self, r):
        for o in r['obs']:
            cur = self.obs.get(o['name'])
            if cur is None:
                self.obs[o['name']] = o
            else:
                cur['checked'] += o['checked']
                if cur['status'] == 'discharged' or (cur['status'] == 'undecided' and o['status'] == 'failed'):
                    cur['status'], cur['detail'] = o['status'], o['detail']
        for k, n in r['functions'].items():
            self.functions[k] = self.functions.get(k, 0) + n
        self.trusted.update(r['trusted'])
        for a in r['assumptions']:
            self.assume(a)
        self.notes += r['notes']
        STATS.z3_time += r['stats'][0]
        STATS.z3_calls += r['stats'][1]
        STATS.paths += r['stats'][2]
        STATS.lang_checks += r['stats'][3]

    def report(self):
        for o in self.obs.values():
            if o['status'] == 'failed' and o['name'] in self.known:
                o['finding'] = self.known[o['name']]
        return dict(property=self.pid, level=self.level, obligations=list(self.obs.values()),
                    functions=sorted(f for f in self.functions), trusted=self.trusted, assumptions=self.assumptions,
                    solver_s=round(STATS.z3_time, 3), z3_calls=STATS.z3_calls, lang_checks=STATS.lang_checks,
                    paths=STATS.paths, notes=self.notes)


_UNITS = None


class Stop(BaseException):
    """the time of the proof is over"""


def _stop(signum, frame):
    raise Stop('timeout')


def _unit(i):
    pr, calls = _UNITS
    f, args = calls[i]
    pr.obs, pr.functions, pr.trusted, pr.assumptions, pr.notes = {}, {}, {}, [], []
    STATS.z3_time, STATS.z3_calls, STATS.paths, STATS.lang_checks = 0.0, 0, 0, 0
    try:
        signal.signal(signal.SIGALRM, _stop)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, pr.deadline + 15 - time.time()), 5.0)
        try:
            f(pr, *args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (Exception, Stop) as e:
        if not isinstance(e, Stop):
            traceback.print_exc()
        for o in pr.obs.values():
            if o['status'] == 'discharged':     # not on all paths
                o['status'], o['detail'] = 'undecided', f'{e!r}'
        pr.undecided(f'{getattr(f, "__name__", f)}{args}', str(args), f'{e!r}')
    return dict(obs=list(pr.obs.values()), functions=pr.functions, trusted=pr.trusted, assumptions=pr.assumptions,
                notes=pr.notes, stats=(STATS.z3_time, STATS.z3_calls, STATS.paths, STATS.lang_checks))


class Run:
    """one path of the verification of one function"""

    def __init__(self, proof, path, function, label, deferred):
        self.proof = proof
        self.path = path
        self.function = function
        self.label = label
        self.deferred = deferred
        self.interp = None

    def where(self):
        fr = self.interp.frames or self.interp.all_frames[-1:]
        return ' < '.join(f'{f.func.qualname}:{f.line}' for f in reversed(fr[-4:])) if fr else '?'

    def feasible(self):
        return self.path.check() == z3.sat

    def require(self, name, ok, detail=''):
        """ok: bool, z3 formula, or function (run when the exploration is complete) -> (ok, detail)"""
        full = f'{self.label}: {name}'
        if self.skip(name):
            return
        if callable(ok) and not isinstance(ok, bool):
            feas = []

            def later(ok=ok):
                try:
                    r = ok()
                except Unsupported as e:
                    self.proof.undecided(full, self.function, str(e))
                    return
                d = detail
                definite = True
                if isinstance(r, tuple):
                    if len(r) == 3:
                        r, d, definite = r
                    else:
                        r, d = r
                if not r:
                    if not feas[0]:
                        return
                self.proof.result(full, self.function, bool(r), d, definite)
            feas.append(self.path.check() != z3.unsat)
            self.deferred.append(later)
            return
        if z3.is_expr(ok):
            st = self.path.check(z3.Not(ok))
            if st == z3.unsat:
                self.proof.result(full, self.function, True)
            elif st == z3.sat:
                m = self.path.solver.model()
                self.proof.result(full, self.function, False, f'{detail} countermodel {m}', not getattr(self.path, 'imprecise', False))
            else:
                self.proof.undecided(full, self.function, f'solver gave up: {detail}')
            return
        if not ok and self.path.check() == z3.unsat:
            return
        self.proof.result(full, self.function, bool(ok), detail, not getattr(self.path, 'imprecise', False))

    def same(self, name, a, b, detail=''):
        """a and b are the same value; when they are different terms, a state in which they differ is looked for"""
        if self.skip(name):
            return
        from . import concrete
        ok, why = concrete.same(self.path, a, b)
        if ok is not True and self.path.check() == z3.unsat:
            return
        self.proof.result(f'{self.label}: {name}', self.function, ok is True, f'{detail} {why}', ok is False)

    def decide(self, name, ok, detail=''):
        """ok: True, False or None (not known)"""
        if self.skip(name):
            return
        if ok is not True and self.path.check() == z3.unsat:
            return
        self.proof.result(f'{self.label}: {name}', self.function, ok is True, detail, ok is False and not getattr(self.path, 'imprecise', False))

    def skip(self, name):
        return self.proof.only is not None and name not in self.proof.only[0]

    def call(self, f, *args, **kw):
        return self.interp.call(f, args, kw)


def main():
    pid, out = sys.argv[1], sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
    budget = float(sys.argv[4]) if len(sys.argv) > 4 else 300
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from oracle import common
    common.setup_path()
    t = time.time()
    pr = Proof(pid, tier, budget)
    try:
        spec = importlib.import_module(f'pyv.specs.{pid.lower()}')
        spec.prove(pr)
    except Exception as e:
        traceback.print_exc()
        pr.undecided('specification', pid, f'{e!r}')
    r = pr.report()
    r['wall_s'] = round(time.time() - t, 2)
    json.dump(r, open(out, 'w'), indent=1, default=str)
    if os.environ.get('PYV_VERBOSE'):
        for o in r['obligations']:
            print(o['status'], o['name'], o['checked'], o['detail'][:300])
        print({k: r[k] for k in ('paths', 'solver_s', 'z3_calls', 'wall_s')})


if __name__ == '__main__':
    main()
