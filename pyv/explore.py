"""Path exploration by re-execution, path conditions, and loop tables."""
import time

import z3

from . import automata as A
from .values import *  # noqa
from .values import S, SB, SI, Atom, Obj, PathEnd, Unsupported, key_of, rope


class Decision:
    __slots__ = ('n', 'i', 'label', 'redo')

    def __init__(self, n, label, redo):
        self.n, self.i, self.label, self.redo = n, 0, label, redo


class Stats:
    def __init__(self):
        self.z3_calls = 0
        self.z3_time = 0.0
        self.paths = 0
        self.lang_checks = 0


STATS = Stats()


class Explorer:
    def __init__(self, max_paths=60000, deadline=None):
        self.stack = []
        self.loops = {}         # key -> LoopInfo
        self.max_paths = max_paths
        self.deadline = deadline
        self.paths = 0

    def explore(self, fn):
        self.stack = []
        while True:
            self.paths += 1
            STATS.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            path = Path(self)
            try:
                fn(path)
            except PathEnd:
                pass
            st = self.stack
            del st[path.pos:]
            while st:
                d = st[-1]
                if d.redo is not None and d.i == 0 and d.redo():
                    break
                d.i += 1
                if d.i < d.n:
                    break
                st.pop()
            if not st:
                return


class Log(list):
    """the writes of a path; a write to a container that outlives the conversion is reported"""
    __slots__ = ('path',)

    def append(self, ent):
        if ent[0] == 'l' and ent[1].meta.get('clone') is True:
            raise Unsupported('an item of a list that a loop made is changed')
        if ent[0] in ('l', 'd', 'f') and ent[1] is not None:
            what = ent[1].meta.get('real')
            if what is not None:
                h = self.path.extra.get('shared_write')
                if h:
                    h(what)
        list.append(self, ent)


class Path:
    def __init__(self, ex):
        self.ex = ex
        self.pos = 0
        self.reg = []
        self.cons = []
        self.solver = None
        self.log = Log()        # heap/frame writes
        self.log.path = self
        self.memo = {}
        self.facts = []         # human readable
        self.names = {}
        self.trace = []         # effects
        self.depth = 0
        self.nframes = 0
        self.stack_names = []
        self.extra = {}

    # ---- registry
    def new(self, x):
        x.rid = len(self.reg)
        self.reg.append(x)
        return x

    def atom(self, name, lang=A.ALL, origin=None, tags=()):
        if lang.empty():
            raise PathEnd()
        return S((self.new(Atom(name, lang, origin, tags)),))

    def derived(self, op, args, lang, name=None, tags=()):
        """the same operation on the same arguments gives the same atom"""
        k = (op,) + tuple(key_of(a) for a in args)
        r = self.memo.get(k)
        if r is None:
            if lang.empty():
                raise PathEnd()
            if lang == A.EPS:
                return ''
            r = self.memo[k] = S((self.new(Atom(name or op, lang, (op,) + tuple(args), tags)),))
        return r

    def int(self, name, lo=None, hi=None):
        n = len(self.reg)
        self.reg.append(None)
        v = z3.Int(f'{name}!{n}')
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SI(v)

    def bool(self, name):
        n = len(self.reg)
        self.reg.append(None)
        return SB(z3.Bool(f'{name}!{n}'))

    def debug(self):
        """the debug argument of a conversion"""
        return False if self.extra.get('debug_off') else self.bool('debug')

    def obj(self, cls, fields=None, lazy=None, meta=None, name=''):
        return self.new(Obj(cls, fields, lazy, meta, name))

    def slist(self, items=(), kind='list', meta=None):
        return self.new(SList(items, kind, meta))

    def sdict(self, d=None, sym=None, meta=None):
        return self.new(SDict(d, sym, meta))

    def opaque(self, name, spec=None):
        return self.new(Opaque(name, spec))

    # ---- decisions
    def choose(self, n, label, redo=None):
        if n <= 0:
            raise PathEnd()
        if n == 1 and redo is None:
            return 0
        st = self.ex.stack
        if self.pos < len(st):
            d = st[self.pos]
            if d.n != n or d.label != label:
                raise AssertionError(f'non-deterministic replay: {d.label} {label}')
            d.redo = redo if redo is not None else d.redo
        else:
            d = Decision(n, label, redo)
            st.append(d)
        self.pos += 1
        return d.i

    def prefix(self):
        return tuple(d.i for d in self.ex.stack[:self.pos])

    # ---- constraints
    def assume(self, e):
        if isinstance(e, SB):
            e = e.e
        if e is True:
            return
        if e is False:
            raise PathEnd()
        self.cons.append(e)
        if self.solver is not None:
            self.solver.add(e)

    def check(self, *extra):
        t = time.time()
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', 10000)
            self.solver.add(*self.cons)
        r = self.solver.check(*extra)
        STATS.z3_calls += 1
        STATS.z3_time += time.time() - t
        return r

    def entails(self, e):
        """path condition => e (z3)"""
        if isinstance(e, SB):
            e = e.e
        if e is True:
            return True
        if e is False:
            return self.check() == z3.unsat
        return self.check(z3.Not(e)) == z3.unsat

    def branch(self, b, label='if'):
        """truth value of a bool, forking when both are possible"""
        if b is True or b is False:
            return b
        if isinstance(b, SB):
            e = b.e
        else:
            e = b
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        t = self.check(e) != z3.unsat
        f = self.check(z3.Not(e)) != z3.unsat
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathEnd()
        if self.choose(2, label) == 0:
            self.assume(e)
            return True
        self.assume(z3.Not(e))
        return False

    # ---- languages
    def refine(self, atom, lang):
        n = atom.lang & lang
        if n.empty():
            raise PathEnd()
        atom.lang = n

    def fork_lang(self, atom, lang, label='lang'):
        """does the atom's value lie in lang?  forks and refines"""
        STATS.lang_checks += 1
        inn = atom.lang & lang
        if inn.empty():
            return False
        out = atom.lang - lang
        if out.empty():
            return True
        r = self.choose(2, label) == 0
        atom.lang = inn if r else out
        if atom._len is not None:
            lo, hi = atom.lang.lengths()
            self.assume(atom._len.e >= lo)
            if hi is not None:
                self.assume(atom._len.e <= hi)
            if self.check() == z3.unsat:
                raise PathEnd()
        return r

    def len_atom(self, atom):
        if atom._len is None:
            lo, hi = atom.lang.lengths()
            atom._len = self.int('len_' + atom.name, lo, hi)
        return atom._len


def word_of(v):
    """the only value of a string, or None"""
    if isinstance(v, str):
        return v
    w = ''
    for x in v.parts:
        if not isinstance(x, str):
            ws = x.lang.finite_words(2) if x.lang.lengths()[1] is not None else None
            if not ws or len(ws) != 1:
                return None
            x = list(ws)[0]
        w += x
    return w


def canon(v):
    """a string with one value only as that value"""
    if isinstance(v, S):
        w = word_of(v)
        if w is not None:
            return w
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    return v


def lang_of(v, cap=400):
    """language of a rope (over-approximation)"""
    if isinstance(v, str):
        return A.lit(v)
    r = A.EPS
    for p in v.parts:
        L = A.lit(p) if isinstance(p, str) else p.lang
        if p is not None and len(r.trans) + len(L.trans) > cap:
            L = A.ALL
        r = r + L
    return r
