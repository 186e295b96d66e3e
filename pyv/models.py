"""Models of the built-in operations of Python over symbolic values.

Each result is a superset of what the real operation can give (strings: language and origin of the
result; integers: exact in z3; exceptions: every exception that the operation can raise for the modelled
operand kinds).  Everything not modelled raises Unsupported: the obligation is then undecided.
"""
import ast
import functools
import re

import z3

from . import automata as A
from .explore import canon, lang_of
from .values import *  # noqa
from .values import (S, SB, SI, Atom, Bound, Builtin, Func, Gen, Obj, Opaque, PathEnd, SDict, Seg, SList, TExc,
                     Unsupported, atom_of, is_str, key_of, mkbool, mkint, parts_of, rope, zint)

NONEMPTY = A.ALL - A.EPS
WS = A.SPACE


# ------------------------------------------------------------------ truth
def truth(interp, v):
    from .interp import MISSING
    p = interp.path
    if v is None or isinstance(v, (bool, int, float, str, tuple, bytes)):
        return bool(v)
    if isinstance(v, (SB,)):
        return p.branch(v)
    if isinstance(v, SI):
        return p.branch(v.e != 0)
    if isinstance(v, S):
        return str_nonempty(p, v)
    if isinstance(v, SList):
        return list_nonempty(p, v)
    if isinstance(v, SDict):
        if v.d:
            return True
        if v.sym is None:
            return False
        return sym_nonempty(p, v)
    if isinstance(v, Opaque):
        if v.spec is not None and hasattr(v.spec, 'truth'):
            return v.spec.truth(interp, p, v)
        k = ('truth', v.rid)
        if k not in p.memo:
            p.memo[k] = p.choose(2, 'truth') == 0
        return p.memo[k]
    if isinstance(v, Obj):
        for n in ('__bool__', '__len__'):
            m = interp.class_attr(v.cls, n)
            if m is not MISSING:
                return truth(interp, interp.call(interp.wrap_attr(v, m, v.cls, n), ()))
        return True
    if isinstance(v, (Func, Bound, Builtin, type)):
        return True
    return bool(v)


def str_nonempty(p, v):
    if isinstance(v, str):
        return bool(v)
    if any(isinstance(x, str) for x in v.parts):
        return True
    for a in v.parts:
        if p.fork_lang(a, NONEMPTY, 'nonempty'):
            return True
    return False


def seg_state(p, seg):
    return p.memo.get(('seg', id(seg)))


def seg_nonempty(p, seg):
    """does the segment have an element? decided once per path"""
    if seg.nonempty is True:
        return True
    k = ('seg', id(seg))
    if k not in p.memo:
        n = seg.n[1] if seg.n is not None and seg.n[0] is p else p.memo.get(('seglen', id(seg)))
        p.memo[k] = p.choose(2, 'seg') == 0 if n is None else p.branch(zint(n) > 0, 'seg')
        p.memo[('segref', id(seg))] = seg
    return p.memo[k]


def list_nonempty(p, v):
    if any(not isinstance(x, Seg) for x in v.items):
        return True
    for x in v.items:
        if seg_nonempty(p, x):
            return True
    return False


def sym_nonempty(p, d):
    k = ('dne', d.rid)
    if k not in p.memo:
        p.memo[k] = p.choose(2, 'dict nonempty') == 0
    return p.memo[k]


# ------------------------------------------------------------------ str()
def str_(interp, p, v='', *rest):
    from .interp import MISSING
    if rest:
        raise Unsupported('str() with encoding')
    if is_str(v):
        return v
    if isinstance(v, SI):
        lo = A.DEC
        if p.entails(v.e >= 0):
            lo = A.NAT
        return p.derived('str', [v], lo)
    if isinstance(v, SB):
        return 'True' if p.branch(v) else 'False'
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, Obj):
        if issubclass(v.cls, BaseException):
            # the message: assumed to be computable (macro exceptions have a working str())
            return p.derived('excstr', [v], A.ALL)
        m = interp.class_attr(v.cls, '__str__')
        if m is not MISSING and m is not object.__str__:
            return interp.call(interp.wrap_attr(v, m, v.cls, '__str__'), ())
        return repr_(interp, p, v)
    if isinstance(v, Opaque):
        if v.spec is not None and hasattr(v.spec, 'str'):
            return v.spec.str(interp, p, v)
        return p.derived('str', [v], A.ALL)
    if isinstance(v, BaseException):
        return str(v)
    return repr_(interp, p, v)


def repr_(interp, p, v):
    from .interp import MISSING, all_concrete, lower
    if is_str(v):
        if isinstance(v, str):
            return repr(v)
        return p.derived('repr', [v], REPR)
    if v is None or isinstance(v, (bool, int, float)):
        return repr(v)
    if isinstance(v, (SI, SB)):
        return str_(interp, p, v)
    if isinstance(v, Obj):
        m = interp.class_attr(v.cls, '__repr__')
        if m is not MISSING and m is not object.__repr__ and not issubclass(v.cls, BaseException):
            return interp.call(interp.wrap_attr(v, m, v.cls, '__repr__'), ())
        return p.derived('repr', [v], A.ALL)
    if isinstance(v, Opaque):
        return p.derived('repr', [v], A.ALL)
    if isinstance(v, (SList, SDict, tuple)):
        if all_concrete([v]):
            return repr(lower(v))
        return p.derived('repr', [v], A.ALL)
    if isinstance(v, type):
        return repr(v)
    return p.derived('repr', ['?'], A.ALL)


REPR = (A.lit("'") + A.ALL + A.lit("'")) | (A.lit('"') + A.ALL + A.lit('"'))


def format_(interp, v, spec=''):
    p = interp.path
    if spec in ('', 's'):
        if spec == 's' and not is_str(v):
            raise Unsupported('format s')
        return str_(interp, p, v)
    if isinstance(v, (int, str)) and not isinstance(v, bool) and isinstance(spec, str):
        return format(v, spec)
    if spec == 'd':
        if isinstance(v, (SI, int)) and not isinstance(v, bool):
            return str_(interp, p, v)
        if isinstance(v, (bool,)):
            return str(int(v))
        if isinstance(v, SB):
            return str_(interp, p, mkint(z3.If(v.e, 1, 0)))
        if v is None or isinstance(v, (SList, SDict, tuple, Obj)):
            interp.throw(TypeError, 'unsupported format string')
        if is_str(v):
            interp.throw(ValueError, "Unknown format code 'd'")
    if is_str(v) and is_str(spec):
        return p.derived('format', [v, spec], A.ALL)
    raise Unsupported(f'format {v!r} {spec!r}')


# ------------------------------------------------------------------ comparison
def same_type_str(a, b):
    return is_str(a) and is_str(b)


def str_eq(p, a, b):
    """equality of two ropes, forking where both outcomes are possible"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        at = atom_of(a)
        if at is not None:
            return p.fork_lang(at, A.lit(b), 'eq')
        la = lang_of(a)
        if not la.has(b):
            return False
        return bool_memo(p, ('eq', key_of(a), b))
    if key_of(a) == key_of(b):
        return True
    if (lang_of(a) & lang_of(b)).empty():
        return False
    k = sorted([repr(key_of(a)), repr(key_of(b))])
    res = bool_memo(p, ('eq', k[0], k[1]))
    if res:
        p.extra.setdefault('equal', []).append((a, b))
    return res


def bool_memo(p, k):
    if k not in p.memo:
        p.memo[k] = p.choose(2, 'rel') == 0
    return p.memo[k]


def eq(interp, a, b):
    p = interp.path
    if is_str(a) and is_str(b):
        return str_eq(p, a, b)
    num = (int, SI, SB)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (SI, SB)) or isinstance(b, (SI, SB)):
            if isinstance(a, SB):
                a = SI(z3.If(a.e, 1, 0))
            if isinstance(b, SB):
                b = SI(z3.If(b.e, 1, 0))
            return mkbool(zint(a) == zint(b))
        return a == b
    if a is None or b is None:
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            return bool_memo(p, ('isnone', o.rid))
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not truth(interp, eq(interp, x, y)):
                return False
        return True
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is b:
            return True
        return bool_memo(p, ('eqo', repr(key_of(a)), repr(key_of(b))))
    if isinstance(a, SList) and isinstance(b, SList):
        if a is b:
            return True
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items):
                return False
            return all(truth(interp, eq(interp, x, y)) for x, y in zip(a.items, b.items))
        return bool_memo(p, ('eql', a.rid, b.rid, len(p.log)))
    if isinstance(a, SDict) or isinstance(b, SDict):
        if type(a) is not type(b):
            return False
        if a is b:
            return True
        return bool_memo(p, ('eqd', a.rid, b.rid, len(p.log)))
    if isinstance(a, Obj) or isinstance(b, Obj):
        if isinstance(a, Obj) and isinstance(b, Obj):
            return identical(interp, a, b)
        return False
    if isinstance(a, (S, SI, SB, SList)) or isinstance(b, (S, SI, SB, SList)):
        return False        # values of different kinds
    return a == b


def identical(interp, a, b):
    p = interp.path
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls:
            return False
        if 'root' in a.meta and 'root' in b.meta and a.meta['root'] != b.meta['root']:
            return False
        if a.meta.get('arbitrary') or b.meta.get('arbitrary'):
            # two names for objects nothing is known about may be the same object, but a new object is not an old one
            if not a.meta.get('arbitrary') or not b.meta.get('arbitrary'):
                fresh, arb = (a, b) if not a.meta.get('arbitrary') else (b, a)
                if arb.rid < fresh.rid:
                    return False
            raise Unsupported('identity of two unknown objects')
        return False
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o, x = (a, b) if isinstance(a, Opaque) else (b, a)
        if x is None:
            if o.spec is not None and getattr(o.spec, 'notnone', False):
                return False
            return bool_memo(p, ('isnone', o.rid))
        return bool_memo(p, ('is', repr(key_of(a)), repr(key_of(b))))
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, SB) or isinstance(b, SB):
            return eq(interp, a, b)
        return a is b
    if isinstance(a, (SList, SDict)) or isinstance(b, (SList, SDict)):
        return a is b
    if isinstance(a, (type,)) or isinstance(b, type):
        return a is b
    if isinstance(a, Func) and isinstance(b, Func):
        return a is b
    if type(a).__name__ in ('S', 'SI') or type(b).__name__ in ('S', 'SI'):
        raise Unsupported('identity of strings or numbers')
    return a is b


def compare(interp, op, a, b):
    p = interp.path
    if isinstance(op, ast.Eq):
        return eq(interp, a, b)
    if isinstance(op, ast.NotEq):
        r = eq(interp, a, b)
        return mkbool(z3.Not(r.e)) if isinstance(r, SB) else not r
    if isinstance(op, ast.Is):
        return identical(interp, a, b)
    if isinstance(op, ast.IsNot):
        r = identical(interp, a, b)
        return mkbool(z3.Not(r.e)) if isinstance(r, SB) else not r
    if isinstance(op, ast.In):
        return contains(interp, b, a)
    if isinstance(op, ast.NotIn):
        r = contains(interp, b, a)
        return mkbool(z3.Not(r.e)) if isinstance(r, SB) else not r
    num = (int, SI)
    if isinstance(a, SB):
        a = SI(z3.If(a.e, 1, 0))
    if isinstance(b, SB):
        b = SI(z3.If(b.e, 1, 0))
    if isinstance(a, num) and isinstance(b, num):
        x, y = zint(a), zint(b)
        if isinstance(op, ast.Lt):
            return mkbool(x < y)
        if isinstance(op, ast.LtE):
            return mkbool(x <= y)
        if isinstance(op, ast.Gt):
            return mkbool(x > y)
        if isinstance(op, ast.GtE):
            return mkbool(x >= y)
    if is_str(a) and is_str(b):
        if isinstance(a, str) and isinstance(b, str):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        return bool_memo(p, (type(op).__name__, repr(key_of(a)), repr(key_of(b))))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('order of unknown values')
    if isinstance(a, (tuple, SList)) or isinstance(b, (tuple, SList)):
        if type(a) is type(b):
            raise Unsupported('order of sequences')
    interp.throw(TypeError, 'order not supported')


def contains(interp, c, x):
    p = interp.path
    if isinstance(c, Gen):
        c = interp.comp(c.node, c.frame)
    if is_str(c):
        if not is_str(x):
            if isinstance(x, Opaque):
                raise Unsupported('in')
            interp.throw(TypeError, "'in <string>' requires string")
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(x, str):
            if isinstance(c, S):
                return rope_contains(p, c, x)
        if isinstance(c, str):
            at = atom_of(x)
            if at is not None:
                subs = {c[i:j] for i in range(len(c) + 1) for j in range(i, len(c) + 1)}
                return p.fork_lang(at, A.words(tuple(sorted(subs))), 'in')
        return bool_memo(p, ('in', repr(key_of(c)), repr(key_of(x))))
    if isinstance(c, (tuple, list, frozenset, set)) or isinstance(c, SList):
        items = c.items if isinstance(c, SList) else list(c)
        words = [i for i in items if isinstance(i, str)]
        at = atom_of(x) if isinstance(x, S) else None
        if at is not None and len(words) == len(items):
            return p.fork_lang(at, A.words(tuple(sorted(words))), 'in')
        for i in items:
            if isinstance(i, Seg):
                if not seg_nonempty(p, i):
                    continue
                k = ('inseg', id(i), repr(key_of(x)))
                p.memo[('segref', id(i))] = i
                if bool_memo(p, k):
                    return True
                continue
            if truth(interp, eq(interp, i, x)):
                return True
        return False
    if isinstance(c, SDict):
        return dict_has(interp, c, x)
    if isinstance(c, dict):
        return dict_has(interp, interp.lift(c), x)
    if isinstance(c, Opaque):
        if c.spec is not None and hasattr(c.spec, 'contains'):
            return c.spec.contains(interp, p, c, x)
        raise Unsupported(f'in {c!r}')
    if isinstance(c, range):
        return mkbool(z3.Or([zint(x) == i for i in c]))
    if c is None or isinstance(c, (int, SI)):
        interp.throw(TypeError, 'argument is not iterable')
    raise Unsupported(f'in {c!r}')


def rope_contains(p, c, x):
    """x (literal) in rope c: forks"""
    if not x:
        return True
    if any(isinstance(q, str) and x in q for q in c.parts):
        return True
    if len(x) == 1:
        for q in c.parts:
            if isinstance(q, Atom) and p.fork_lang(q, A.containing(x), 'in'):
                return True
        return False
    at = atom_of(c)
    if at is not None:
        return p.fork_lang(at, A.containing(x), 'in')
    L = lang_of(c)
    if (L & A.containing(x)).empty():
        return False
    if L <= A.containing(x):
        return True
    return bool_memo(p, ('in', repr(key_of(c)), x))


# ------------------------------------------------------------------ dicts
def symbolic(k):
    """a key of unknown value"""
    return isinstance(k, (S, SI, SB, Opaque)) or isinstance(k, tuple) and any(symbolic(x) for x in k)


def dict_has(interp, d, k):
    p = interp.path
    if isinstance(k, (SList, SDict)):
        interp.throw(TypeError, 'unhashable type')
    k = canon(k)
    if not symbolic(k) and k in d.d:
        return True
    if isinstance(k, S):
        at = atom_of(k)
        ws = tuple(sorted(x for x in d.d if isinstance(x, str)))
        if ws and at is not None:
            if p.fork_lang(at, A.words(ws), 'key'):
                return True
        elif ws:
            for w in ws:
                if str_eq(p, k, w):
                    return True
    elif isinstance(k, SI):
        for w in [x for x in d.d if isinstance(x, int)]:
            if p.branch(k.e == w):
                return True
    elif isinstance(k, Opaque):
        return bool_memo(p, ('opkey', k.rid, d.rid))
    elif symbolic(k):
        if any(isinstance(w, tuple) and truth(interp, eq(interp, k, w)) for w in d.d):
            return True
    if d.sym is None:
        return False
    if hasattr(d.sym, 'has'):
        r = d.sym.has(interp, p, d, k)
        if r is not None:
            return r
    return bool_memo(p, ('dhas', d.rid, repr(key_of(k)), d.meta.get('gen', 0)))


def dict_get(interp, d, k):
    """value for a key that is present"""
    p = interp.path
    k = canon(k)
    if not symbolic(k) and k in d.d:
        return d.d[k]
    if isinstance(k, S):
        at = atom_of(k)
        for w in [x for x in d.d if isinstance(x, str)]:
            if at is not None:
                if (at.lang & A.lit(w)).empty():
                    continue
                if p.fork_lang(at, A.lit(w), 'key='):
                    return d.d[w]
            elif str_eq(p, k, w):
                return d.d[w]
    elif isinstance(k, SI):
        for w in [x for x in d.d if isinstance(x, int)]:
            if p.branch(k.e == w):
                return d.d[w]
    elif symbolic(k):
        for w in d.d:
            if isinstance(w, tuple) and truth(interp, eq(interp, k, w)):
                return d.d[w]
    if d.sym is None:
        raise PathEnd()
    kk = ('dval', d.rid, repr(key_of(k)), d.meta.get('gen', 0))
    if kk not in p.memo:
        p.memo[kk] = d.sym.value(interp, p, d, k)
    return p.memo[kk]


class Delegate:
    """the unknown part of another dict"""

    def __init__(self, o, without=()):
        self.o = o
        self.without = without

    def has(self, interp, p, d, k):
        for w in self.without:
            if truth(interp, eq(interp, k, w)):
                return False
        return dict_has(interp, self.o, k)

    def value(self, interp, p, d, k):
        return dict_get(interp, self.o, k)

    def key(self, interp, p, d):
        return self.o.sym.key(interp, p, self.o)


class Without:
    """the unknown part of a dict from which an entry was removed"""

    def __init__(self, base, k):
        self.base = base
        self.k = k

    def __getattr__(self, name):
        return getattr(self.base, name)

    def has(self, interp, p, d, k):
        if truth(interp, eq(interp, k, self.k)):
            return False
        return self.base.has(interp, p, d, k) if hasattr(self.base, 'has') else None

    def key(self, interp, p, d):
        k = self.base.key(interp, p, d)
        if truth(interp, eq(interp, k, self.k)):
            raise PathEnd()
        return k


def dict_update(interp, d, o):
    if isinstance(o, SDict):
        if o.sym is not None:
            if d.sym is not None or isinstance(o.sym, GrownDict):
                raise Unsupported('dict update with an unknown dict')
            for w in [x for x in d.d if x not in o.d]:
                if dict_has(interp, o, w):
                    setitem(interp, d, w, dict_get(interp, o, w))
            d.sym = Delegate(o)
        for k, v in o.d.items():
            setitem(interp, d, k, v)
        return
    for kv in to_items(interp, o):
        k, v = interp.unpack(kv, 2)
        setitem(interp, d, k, v)


def dict_keys(interp, d):
    p = interp.path
    out = list(d.d)
    if d.sym is not None:
        out.append(p.memo.setdefault(('dkeys', d.rid), Seg('src', elem=lambda i, p: d.sym.key(i, p, d), name='keys')))
    return out


def dict_items(interp, d):
    p = interp.path
    out = list(d.d.items())
    if d.sym is not None:
        def el(i, p):
            k = d.sym.key(i, p, d)
            return (k, d.sym.value(i, p, d, k))
        out.append(p.memo.setdefault(('ditems', d.rid), Seg('src', elem=el, name='items')))
    return out


def dict_values(interp, d):
    p = interp.path
    out = list(d.d.values())
    if d.sym is not None:
        def el(i, p):
            k = d.sym.key(i, p, d)
            return d.sym.value(i, p, d, k)
        out.append(p.memo.setdefault(('dvals', d.rid), Seg('src', elem=el, name='values')))
    return out


# ------------------------------------------------------------------ items
def getitem(interp, o, i):
    from .interp import all_concrete
    p = interp.path
    if isinstance(o, SDict):
        if isinstance(i, (SList, SDict)):
            interp.throw(TypeError, 'unhashable')
        if dict_has(interp, o, i):
            return dict_get(interp, o, i)
        interp.throw(KeyError, i)
    if isinstance(o, (str, tuple)) and isinstance(i, slice) and all_concrete([i.start, i.stop, i.step]):
        return o[i]
    if isinstance(o, tuple):
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                interp.throw(IndexError, 'tuple index out of range')
        raise Unsupported('tuple index')
    if is_str(o):
        return str_index(interp, o, i)
    if isinstance(o, SList):
        return list_index(interp, o, i)
    if isinstance(o, Opaque):
        if o.spec is not None and hasattr(o.spec, 'getitem'):
            return o.spec.getitem(interp, p, o, i)
        raise Unsupported(f'item of {o!r}')
    if isinstance(o, Obj):
        m = interp.class_attr(o.cls, '__getitem__')
        from .interp import MISSING
        if m is not MISSING:
            return interp.call(interp.wrap_attr(o, m, o.cls, '__getitem__'), (i,))
        interp.throw(TypeError, 'object is not subscriptable')
    if isinstance(o, dict):
        return getitem(interp, interp.lift(o), i)
    if isinstance(o, list):
        return getitem(interp, interp.lift(o), i)
    if o is None or isinstance(o, (int, SI, SB, float)):
        interp.throw(TypeError, f'{type(o).__name__!r} object is not subscriptable')
    if all_concrete([o, i]):
        try:
            return interp.lift(o[i])
        except Exception as e:
            raise TExc(e, type(e))
    raise Unsupported(f'item of {o!r}')


def list_index(interp, o, i):
    p = interp.path
    items = live_items(p, o)
    if isinstance(i, slice):
        if i.start is None and i.stop is None and i.step in (None, 1):
            return p.slist(list(items))
        if not any(isinstance(x, Seg) for x in items):
            a, b = i.start, i.stop
            if isinstance(a, SI) or isinstance(b, SI):
                raise Unsupported('symbolic slice')
            return p.slist(items[i])
        cut = cut_points(interp, items, i)
        if cut is not None:
            return p.slist(items[cut[0]:cut[1]])
        # [n:] / [:-n] with known ends
        if i.step is None and isinstance(i.start, (int, type(None))) and isinstance(i.stop, (int, type(None))):
            a, b = i.start or 0, i.stop
            if a >= 0 and (b is None or b < 0):
                r = drop_front(interp, list(items), a)
                if b is not None:
                    r = [x for x in reversed(drop_front(interp, list(reversed(r)), -b))]
                return p.slist(r)
        return p.slist([Seg('src', elem=lambda ip, pp: any_elem(ip, o), name='slice', src=('slice', next((x for x in items if isinstance(x, Seg)), None)))] if items else [])
    if isinstance(i, SI):
        if not any(isinstance(x, Seg) for x in items):
            n = len(items)
            for k in range(n):
                if p.branch(z3.Or(i.e == k, i.e == k - n), f'index {k}'):
                    return items[k]
            interp.throw(IndexError, 'list index out of range')
        hook = interp.hooks.get('list_index')
        if hook:
            return hook(interp, o, i)
        n = zint(length(interp, o))
        for k, x in enumerate(reversed(items)):
            if isinstance(x, Seg):
                break
            if p.entails(i.e == n - 1 - k):
                return x
        for k, x in enumerate(items):
            if isinstance(x, Seg):
                break
            if p.entails(i.e == k):
                return x
        if not p.branch(z3.And(i.e < n, i.e >= -n), 'index'):
            interp.throw(IndexError, 'list index out of range')
        r = any_elem(interp, o)
        if isinstance(r, (SList, SDict, Obj)):
            raise Unsupported('symbolic index')
        return r
    if not isinstance(i, int):
        interp.throw(TypeError, 'list indices must be integers')
    seq = items if i >= 0 else list(reversed(items))
    k = i if i >= 0 else -i - 1
    for n, x in enumerate(seq):
        if isinstance(x, Seg):
            from .loops import seg_elem
            # either the segment has no more elements, or this is one of them
            if k == 0:
                if seg_nonempty(p, x):
                    key = ('segend', id(x), i >= 0)
                    if key not in p.memo:
                        p.memo[key] = seg_elem(interp, x)
                    return p.memo[key]
                continue
            if not seg_nonempty(p, x):
                continue
            c = p.choose(2, 'segindex')
            if c == 0:
                return seg_elem(interp, x)
            k = max(0, k - 1)
            rest = [y for y in seq[n + 1:]]
            # some elements of the segment were skipped: the target is any later one
            flat = [y for y in rest]
            if not flat:
                interp.throw(IndexError, 'list index out of range')
            j = p.choose(len(flat) + 1, 'segindex2')
            if j == len(flat):
                interp.throw(IndexError, 'list index out of range')
            y = flat[j]
            return seg_elem(interp, y) if isinstance(y, Seg) else y
        if k == 0:
            return x
        k -= 1
    interp.throw(IndexError, 'list index out of range')


def cut_points(interp, items, i):
    """(a, b) when the slice i of a list with unknown parts starts and ends between two of its entries"""
    p = interp.path
    if i.step not in (None, 1) or not all(x is None or isinstance(x, (int, SI)) and not isinstance(x, bool) for x in (i.start, i.stop)):
        return None
    if not any(isinstance(x, SI) for x in (i.start, i.stop)):
        return None
    ends = [z3.IntVal(0)]
    for x in items:
        ends.append(ends[-1] + (zint(seg_len(p, x)) if isinstance(x, Seg) else 1))
    out = []
    for x, default in ((i.start, 0), (i.stop, len(items))):
        if x is None:
            out.append(default)
            continue
        e = zint(x)
        j = next((j for j, t in enumerate(ends) if p.entails(t == e)), None)
        if j is None and p.entails(e >= ends[-1]):
            j = len(items)
        if j is None and p.entails(z3.And(e < 0, e + ends[-1] <= 0)):
            j = 0
        if j is None:
            return None
        out.append(j)
    return out[0], max(out)


def live_items(p, o):
    return [x for x in o.items if not (isinstance(x, Seg) and p.memo.get(('seg', id(x))) is False)]


def drop_front(interp, items, n):
    p = interp.path
    while n and items:
        x = items[0]
        if isinstance(x, Seg):
            if not seg_nonempty(p, x):
                items.pop(0)
                continue
            # one element fewer: an arbitrary number remains
            rest = Seg('src', elem=lambda ip, pp, x=x: _seg_elem(ip, x), name=x.name + '[1:]', src=('slice', x))
            items[0] = rest
            n -= 1
            if n:
                raise Unsupported('slice of several unknown elements')
            continue
        items.pop(0)
        n -= 1
    return items


def _seg_elem(interp, seg):
    from .loops import seg_elem
    return seg_elem(interp, seg)


def any_elem(interp, o):
    from .loops import seg_elem
    p = interp.path
    items = live_items(p, o)
    if not items:
        raise PathEnd()
    x = items[p.choose(len(items), 'any')]
    return seg_elem(interp, x) if isinstance(x, Seg) else x


def str_index(interp, s, i):
    p = interp.path
    if isinstance(i, slice):
        return str_slice(interp, s, i)
    if not isinstance(i, (int, SI)):
        interp.throw(TypeError, 'string indices must be integers')
    if isinstance(i, int):
        if isinstance(s, str):
            try:
                return s[i]
            except IndexError:
                interp.throw(IndexError, 'string index out of range')
        parts = list(s.parts)
        if i < 0:
            parts.reverse()
            k = -i - 1
        else:
            k = i
        for q in parts:
            if isinstance(q, str):
                if k < len(q):
                    return q[k] if i >= 0 else q[-1 - k]
                k -= len(q)
            else:
                if p.fork_lang(q, A.EPS, 'empty'):
                    continue
                if k == 0:
                    one = A.chars(A.FULL)
                    L = q.lang.rquot(A.ALL) & one if i >= 0 else q.lang.lquot(A.ALL) & one
                    return p.derived('first' if i >= 0 else 'last', [S((q,))], L)
                lo, hi = q.lang.lengths()
                if lo == hi:
                    if k < lo:
                        return p.derived('char', [S((q,)), i], A.chars(A.FULL))
                    k -= lo
                    continue
                if k < (lo or 0):
                    return p.derived('char', [S((q,)), i], A.chars(A.FULL))
                if p.choose(2, 'index') == 0:
                    return p.atom('ch', A.chars(A.FULL))
                interp.throw(IndexError, 'string index out of range')
        interp.throw(IndexError, 'string index out of range')
    ln = length(interp, s)
    if p.branch(z3.And(i.e >= -zint(ln), i.e < zint(ln)), 'in range'):
        return p.derived('char', [s, i], A.chars(A.FULL))
    interp.throw(IndexError, 'string index out of range')


def str_slice(interp, s, i):
    p = interp.path
    if i.step not in (None, 1):
        if i.step == -1 and i.start is None and i.stop is None:
            return p.derived('reversed', [s], lang_of(s).reverse())
        raise Unsupported('slice step')
    a, b = i.start, i.stop
    if a is None:
        a = 0
    for x in (a, b):
        if x is not None and not isinstance(x, (int, SI)):
            interp.throw(TypeError, 'slice indices must be integers')
    if isinstance(a, int) and (b is None or isinstance(b, int)):
        if a >= 0 and b is None:
            return drop_chars(interp, s, a)
        if a >= 0 and b is not None and b < 0:
            r = drop_chars(interp, s, a)
            return drop_chars(interp, r, -b, end=True)
        if a == 0 and b is not None and b >= 0:
            return take_chars(interp, s, b)
        if a >= 0 and b is not None and b >= 0:
            return take_chars(interp, drop_chars(interp, s, a), max(0, b - a))
        if a < 0 and b is None:
            return take_chars(interp, s, -a, end=True)
    return p.derived('slice', [s, a, b], lang_of(s).factors() if hasattr(A.Lang, 'factors') else A.ALL)


def drop_chars(interp, s, n, end=False):
    """s[n:] or s[:-n]"""
    p = interp.path
    parts = list(parts_of(s))
    if end:
        parts.reverse()
    while n and parts:
        q = parts[0]
        if isinstance(q, str):
            k = min(n, len(q))
            parts[0] = q[k:] if not end else q[:len(q) - k]
            n -= k
            if not parts[0]:
                parts.pop(0)
            continue
        if p.fork_lang(q, A.EPS, 'empty'):
            parts.pop(0)
            continue
        lo, hi = q.lang.lengths()
        if lo == hi and lo <= n:
            parts.pop(0)
            n -= lo
            continue
        if lo < n:
            return p.derived('dropend' if end else 'drop', [s, n], A.ALL)
        nn = A.EPS
        for _ in range(n):
            nn = nn + A.chars(A.FULL)
        L = q.lang.lquot(nn) if not end else q.lang.rquot(nn)
        parts[0] = p.derived('dropend' if end else 'drop', [S((q,)), n], L)
        n = 0
    if end:
        parts.reverse()
    return rope(*parts)


def take_chars(interp, s, n, end=False):
    p = interp.path
    parts = list(parts_of(s))
    if end:
        parts.reverse()
    out = []
    for q in parts:
        if n == 0:
            break
        if isinstance(q, str):
            t = q[:n] if not end else q[max(0, len(q) - n):]
            out.append(t)
            n -= len(t)
            continue
        if p.fork_lang(q, A.EPS, 'empty'):
            continue
        lo, hi = q.lang.lengths()
        if lo == hi and lo <= n:
            out.append(S((q,)))
            n -= lo
            continue
        if lo >= n:
            nn = A.EPS
            for _ in range(n):
                nn = nn + A.chars(A.FULL)
            L = q.lang.rquot(A.ALL) & nn if not end else q.lang.lquot(A.ALL) & nn
            out.append(p.derived('takeend' if end else 'take', [S((q,)), n], L))
            n = 0
            continue
        return p.derived('takeend' if end else 'take', [s, n], A.ALL)
    if end:
        out.reverse()
    return rope(*out)


def setitem(interp, o, i, v):
    p = interp.path
    if isinstance(o, SDict):
        if isinstance(i, (SList, SDict)):
            interp.throw(TypeError, 'unhashable')
        p.log.append(('d', o, None, dict(o.d), i, v))
        h = interp.hooks.get('dict_write')
        if h:
            h(interp, o, i, v)
        i = canon(i)
        if symbolic(i):
            sym_store(interp, o, i, v)
            return
        o.d[i] = v
        return
    if isinstance(o, SList):
        if isinstance(i, int):
            items = o.items
            k = i if i >= 0 else len(items) + i
            if 0 <= k < len(items) and not any(isinstance(x, Seg) for x in (items[:k + 1] if i >= 0 else items[k:])):
                p.log.append(('l', o, None, list(items)))
                items[k] = v
                return
            if o.concrete:
                interp.throw(IndexError, 'list assignment index out of range')
        if isinstance(i, SI) and o.concrete:
            n = len(o.items)
            for k in range(n):
                if p.branch(z3.Or(i.e == k, i.e == k - n)):
                    p.log.append(('l', o, None, list(o.items)))
                    o.items[k] = v
                    return
            interp.throw(IndexError, 'list assignment index out of range')
        hook = interp.hooks.get('list_setitem')
        if hook:
            return hook(interp, o, i, v)
        raise Unsupported('list item assignment')
    if isinstance(o, Opaque) and o.spec is not None and hasattr(o.spec, 'setitem'):
        return o.spec.setitem(interp, p, o, i, v)
    h = interp.hooks.get('foreign_write')
    if h and h(interp, o, i, v):
        return
    if isinstance(o, (tuple, str, S)) or o is None:
        interp.throw(TypeError, 'object does not support item assignment')
    raise Unsupported(f'item assignment on {o!r}')


class GrownDict:
    """dict after writes with unknown keys: any key may be present, a value is one of those written (or the old)"""

    def __init__(self, base, old):
        self.base = base
        self.old = old
        self.writes = []

    def has(self, interp, p, d, k):
        for wk, wv in reversed(self.writes):
            if key_of(wk) == key_of(k):
                return True
        return None

    def value(self, interp, p, d, k):
        n = len(self.writes)
        for wk, wv in reversed(self.writes):
            if key_of(wk) == key_of(k):
                return wv
        opts = [v for _, v in self.writes]
        if self.base is not None:
            opts.append(None)
        if not opts:
            raise PathEnd()
        c = p.choose(len(opts), 'dict value')
        if self.base is not None and c == len(opts) - 1:
            return self.base.value(interp, p, d, k)
        return opts[c]

    def key(self, interp, p, d):
        opts = [k for k, _ in self.writes]
        if self.base is not None:
            opts.append(None)
        c = p.choose(len(opts), 'dict key')
        if self.base is not None and c == len(opts) - 1:
            return self.base.key(interp, p, d)
        return opts[c]


def sym_store(interp, d, k, v):
    """write with a symbolic key"""
    p = interp.path
    if not isinstance(d.sym, GrownDict):
        d.sym = GrownDict(d.sym, dict(d.d))
    # concrete keys that the symbolic key may equal
    for w in list(d.d):
        if isinstance(k, S) and isinstance(w, str) and str_eq(p, k, w):
            d.d[w] = v
            return
        if isinstance(k, SI) and isinstance(w, int) and p.branch(k.e == w):
            d.d[w] = v
            return
        if isinstance(k, Opaque):
            raise Unsupported('unknown key')
        if isinstance(k, tuple) and isinstance(w, tuple) and truth(interp, eq(interp, k, w)):
            d.d[w] = v
            return
    d.sym.writes.append((k, v))
    d.meta['gen'] = d.meta.get('gen', 0) + 1


def outlives(p, o, name, val):
    """an arbitrary value is put for an attribute: when the attribute is a container of the class or module, so is the value"""
    from .interp import is_repo_class
    old = o.fields.get(name)
    what = old.meta.get('real') if isinstance(old, (SList, SDict, Obj)) else None
    if what is None and name not in o.fields:
        for c in o.cls.__mro__:
            if name in c.__dict__:
                x = c.__dict__[name]
                if type(x) in (list, dict, set, bytearray) or is_repo_class(type(x)):
                    what = f'{c.__name__}.{name}, an object of the class'
                break
    if what is not None and isinstance(val, (SList, SDict, Obj)):
        val.meta['real'] = what
    return val


def delitem(interp, o, i):
    p = interp.path
    if isinstance(o, SDict):
        i = canon(i)
        if symbolic(i) or o.sym is not None and i not in o.d:
            raise Unsupported('del of an unknown key')
        if i not in o.d:
            interp.throw(KeyError, i)
        p.log.append(('d', o, None, dict(o.d)))
        del o.d[i]
        return
    if isinstance(o, SList):
        pop(interp, p, o, i)
        return
    raise Unsupported('del item')


def unpack_symbolic(interp, v, n):
    p = interp.path
    if isinstance(v, S):
        if n is None:
            raise Unsupported('unpack')
        out = []
        ln = length(interp, v)
        if p.branch(mkbool(zint(ln) == n), 'unpack'):
            return [str_index(interp, v, k) for k in range(n)]
        interp.throw(ValueError, 'unpack')
    spl = v.meta.get('split')
    if n is None:
        raise Unsupported('starred unpack of an unknown list')
    items = live_items(p, v)
    known = sum(1 for x in items if not isinstance(x, Seg))
    if known > n:
        interp.throw(ValueError, 'too many values to unpack')
    # ValueError, or exactly n elements
    if p.choose(2, 'unpack') == 1:
        interp.throw(ValueError, 'unpack')
    segs = [x for x in items if isinstance(x, Seg)]
    if len(segs) != 1:
        raise Unsupported('unpack of an unknown list')
    from .loops import seg_elem
    out = []
    for x in items:
        if isinstance(x, Seg):
            out.extend(seg_elem(interp, x) for _ in range(n - known))
        else:
            out.append(x)
    return out


def to_items(interp, v):
    from .loops import items_of
    items = items_of(interp, v)
    if any(isinstance(x, Seg) for x in items):
        return [x for x in items if not (isinstance(x, Seg) and interp.path.memo.get(('seg', id(x))) is False)]
    return items


# ------------------------------------------------------------------ arithmetic
def binop(interp, op, a, b):
    p = interp.path
    if isinstance(op, ast.Add):
        if is_str(a) and is_str(b):
            return rope(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, SList) and isinstance(b, SList):
            return p.slist(list(a.items) + list(b.items))
        if is_str(a) or is_str(b):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('+')
            interp.throw(TypeError, 'can only concatenate str')
    if isinstance(op, ast.Mod) and is_str(a):
        return percent(interp, a, b)
    if isinstance(op, ast.Mult):
        if is_str(a) and isinstance(b, (int, SI)):
            return repeat(interp, a, b)
        if is_str(b) and isinstance(a, (int, SI)):
            return repeat(interp, b, a)
        for x, n in ((a, b), (b, a)):
            if isinstance(x, SList) and isinstance(n, int):
                return p.slist(list(x.items) * n)
            if isinstance(x, SList) and isinstance(n, SI) and x.concrete:
                its = list(x.items)
                if all(not isinstance(i, (Obj, SList, SDict)) for i in its):
                    if not its:
                        return p.slist([])
                    seg = Seg('src', elem=lambda ip, pp: its[pp.choose(len(its), 'rep')], name='repeat')
                    seg.n = (p, mkint(z3.If(n.e > 0, n.e * len(its), z3.IntVal(0))))
                    return p.slist([seg])
                raise Unsupported('list repetition')
            if isinstance(x, tuple) and isinstance(n, int):
                return x * n
        if is_str(a) or is_str(b):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('*')
            interp.throw(TypeError, "can't multiply sequence by non-int")
    if isinstance(a, SB):
        a = SI(z3.If(a.e, 1, 0))
    if isinstance(b, SB):
        b = SI(z3.If(b.e, 1, 0))
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        if isinstance(a, int) and isinstance(b, int):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
                 ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Pow: operator.pow,
                 ast.BitXor: operator.xor, ast.Div: operator.truediv, ast.LShift: operator.lshift}.get(type(op))
            if f is None:
                raise Unsupported('operator')
            try:
                return f(a, b)
            except Exception as e:
                raise TExc(e, type(e))
        x, y = zint(a), zint(b)
        if isinstance(op, ast.Add):
            return mkint(x + y)
        if isinstance(op, ast.Sub):
            return mkint(x - y)
        if isinstance(op, ast.Mult):
            return mkint(x * y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, int) and b > 0:
            return mkint(x / y if isinstance(op, ast.FloorDiv) else x % y)
        raise Unsupported('operator on symbolic ints')
    if isinstance(a, SList) and isinstance(b, SList) and a.kind == 'set':
        raise Unsupported('set operator')
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('operator on an unknown value')
    if isinstance(a, (float,)) or isinstance(b, float):
        raise Unsupported('float')
    if isinstance(a, int) and not isinstance(b, (S, SI)) or (a is None) or (b is None) or is_str(a) or is_str(b) \
            or isinstance(a, (SList, tuple, SDict)):
        try:
            from .interp import lower, all_concrete
            if all_concrete([a, b]) and not isinstance(a, (SList, SDict)):
                import operator
                f = {ast.BitOr: operator.or_, ast.BitAnd: operator.and_}.get(type(op))
                if f:
                    return f(a, b)
        except TypeError:
            pass
        interp.throw(TypeError, f'unsupported operand type(s): {type(a).__name__} and {type(b).__name__}')
    try:
        import operator
        f = {ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.Add: operator.add, ast.Div: operator.truediv}[type(op)]
        return f(a, b)
    except Exception as e:
        raise Unsupported(f'operator {type(op).__name__} {e}')


def repeat(interp, s, n):
    p = interp.path
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, int):
        if isinstance(s, str):
            return s * n
        if n <= 0:
            return ''
        if n <= 40:
            return rope(*([s] * n))
    if isinstance(s, str) and not s:
        return ''
    if isinstance(n, SI):
        if not p.entails(n.e >= 1):
            L = A.lit(s).star() if isinstance(s, str) else A.ALL
        else:
            L = A.lit(s) + A.lit(s).star() if isinstance(s, str) else A.ALL
        r = p.derived('repeat', [s, n], L)
        at = atom_of(r)
        if at is not None and at._len is None:
            ln = length(interp, s)
            at._len = mkint(z3.If(n.e > 0, n.e, z3.IntVal(0)) * zint(ln))
        return r
    return p.derived('repeat', [s, n], A.ALL)


FMT = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?([sdrixXa%])')


def percent(interp, f, arg):
    p = interp.path
    if not isinstance(f, str):
        return p.derived('percent', [f, arg if not isinstance(arg, (SList, SDict)) else repr(arg)], A.ALL)
    out, pos, n = [], 0, 0
    args = arg if isinstance(arg, tuple) else (arg,)
    usedmap = False
    for m in FMT.finditer(f):
        lit = f[pos:m.start()]
        if '%' in lit:
            raise Unsupported('format string')
        out.append(lit)
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            usedmap = True
            if not isinstance(arg, SDict):
                interp.throw(TypeError, 'format requires a mapping')
            v = getitem(interp, arg, key)
        else:
            if n >= len(args):
                interp.throw(TypeError, 'not enough arguments for format string')
            v = args[n]
            n += 1
        if width == '*':
            raise Unsupported('format width *')
        if conv == 's':
            t = str_(interp, p, v)
        elif conv in 'ra':
            t = repr_(interp, p, v)
        elif conv in 'di':
            if not isinstance(v, (int, SI, SB)):
                if isinstance(v, (Opaque, float)):
                    raise Unsupported('%d')
                interp.throw(TypeError, '%d format: a number is required')
            t = str_(interp, p, v) if not isinstance(v, bool) else str(int(v))
        else:
            raise Unsupported('format conversion')
        if width or prec or flags:
            if isinstance(t, str):
                t = f'%{flags}{width or ""}{"." + prec if prec else ""}s' % t
            else:
                w = int(width or 0)
                if prec:
                    raise Unsupported('format precision')
                pad = p.derived('pad', [t, w], A.chars_star(A.cs_chars('0' if '0' in flags else ' ')))
                t = rope(t, pad) if '-' in flags else rope(pad, t)
        out.append(t)
    if '%' in f[pos:]:
        raise Unsupported('format string')
    out.append(f[pos:])
    if not usedmap and n < len(args) and not isinstance(arg, SDict) and not (n == 0 and isinstance(arg, SDict)):
        interp.throw(TypeError, 'not all arguments converted')
    return rope(*out)


def str_format(interp, p, f, *args, **kw):
    import string
    if not isinstance(f, str):
        return p.derived('str.format', [f], A.ALL)
    out = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if name is None:
            continue
        m = re.match(r'(\w*)((?:\.\w+|\[[^\]]*\])*)$', name)
        if not m:
            raise Unsupported('format field')
        base, rest = m.groups()
        if base == '':
            base = str(auto)
            auto += 1
        if base.isdigit():
            if int(base) >= len(args):
                interp.throw(IndexError, 'Replacement index out of range')
            v = args[int(base)]
        else:
            if base not in kw:
                interp.throw(KeyError, base)
            v = kw[base]
        for r in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
            v = interp.getattr(v, r[0]) if r[0] else getitem(interp, v, int(r[1]) if r[1].isdigit() else r[1])
        if conv == 'r':
            v = repr_(interp, p, v)
        elif conv == 's':
            v = str_(interp, p, v)
        if spec and '{' in spec:
            raise Unsupported('nested format spec')
        out.append(format_(interp, v, spec or ''))
    return rope(*out)


def length(interp, v):
    p = interp.path
    if isinstance(v, (str, tuple, dict, list, set, frozenset, bytes, range)):
        return len(v)
    if isinstance(v, S):
        e = z3.IntVal(0)
        for q in v.parts:
            if isinstance(q, str):
                e = e + len(q)
            else:
                e = e + zint(p.len_atom(q))
        return mkint(e)
    if isinstance(v, SList):
        if v.concrete:
            return len(v.items)
        e = z3.IntVal(0)
        for x in v.items:
            if isinstance(x, Seg):
                e = e + zint(seg_len(p, x))
            else:
                e = e + 1
        return mkint(e)
    if isinstance(v, SDict):
        if v.sym is None:
            return len(v.d)
        return p.int('len', len(v.d))
    if isinstance(v, Opaque):
        if v.spec is not None and hasattr(v.spec, 'len'):
            return v.spec.len(interp, p, v)
        raise Unsupported('len')
    if isinstance(v, Gen):
        interp.throw(TypeError, 'generator has no len()')
    if v is None or isinstance(v, (int, SI, SB, float)):
        interp.throw(TypeError, 'object has no len()')
    if isinstance(v, Obj):
        from .interp import MISSING
        m = interp.class_attr(v.cls, '__len__')
        if m is not MISSING:
            return interp.call(interp.wrap_attr(v, m, v.cls, '__len__'), ())
        interp.throw(TypeError, 'object has no len()')
    raise Unsupported(f'len of {v!r}')


def seg_len(p, seg):
    if seg.n is not None and seg.n[0] is p:
        return seg.n[1]
    k = ('seglen', id(seg))
    if k not in p.memo:
        st = p.memo.get(('seg', id(seg)))
        if st is False:
            return 0
        if seg.kind == 'loop' and seg.src is not None and seg.src[0] == 'map' and all(len(a) == 1 and not isinstance(a[0], Seg) for a in seg.alts):
            p.memo[k] = seg_len(p, seg.src[1])
        else:
            p.memo[k] = p.int('n', 1 if (st or seg.nonempty is True) else 0)
        seg.n = (p, p.memo[k])
        p.memo[('segref', id(seg))] = seg
    return p.memo[k]


# ------------------------------------------------------------------ str methods
def cs_of(chars):
    return A.SPACE if chars is None else A.cs_chars(chars)


def strip_side(interp, s, chars, left):
    p = interp.path
    if isinstance(s, str):
        return s.lstrip(chars) if left else s.rstrip(chars)
    cs = cs_of(chars)
    star = A.chars_star(cs)
    parts = list(s.parts)
    if not left:
        parts.reverse()
    while parts:
        q = parts[0]
        if isinstance(q, str):
            t = q.lstrip(chars) if left else q.rstrip(chars)
            parts[0] = t
            if t:
                break
            parts.pop(0)
            continue
        if (q.lang & star).empty() or not p.fork_lang(q, star, 'allstrip'):
            # has a char that stays
            edge = A.ALL - (A.chars(cs) + A.ALL) if left else A.ALL - (A.ALL + A.chars(cs))
            if q.lang <= edge:
                break
            L = q.lang.lstrip(cs) if left else q.lang.rstrip(cs)
            key = 'lstrip' if left else 'rstrip'
            parts[0] = p.derived(key, [S((q,)), chars], L - A.EPS)
            break
        parts.pop(0)
    if not left:
        parts.reverse()
    return rope(*parts)


def s_strip(interp, p, s, chars=None):
    if not (chars is None or isinstance(chars, str)):
        if isinstance(chars, S):
            return p.derived('strip?', [s, chars], A.ALL)
        interp.throw(TypeError, 'strip arg must be None or str')
    return strip_side(interp, strip_side(interp, s, chars, True), chars, False)


def s_lstrip(interp, p, s, chars=None):
    if not (chars is None or isinstance(chars, str)):
        raise Unsupported('strip of unknown characters')
    return strip_side(interp, s, chars, True)


def s_rstrip(interp, p, s, chars=None):
    if not (chars is None or isinstance(chars, str)):
        raise Unsupported('strip of unknown characters')
    return strip_side(interp, s, chars, False)


def crosses(parts, old):
    """can an occurrence of old span a border between two parts?"""
    for i in range(1, len(old)):
        # old = u v; some suffix of the text before a border ends with u, and the text after starts with v
        u, v = old[:i], old[i:]
        for b in range(1, len(parts)):
            left, right = parts[b - 1], parts[b]
            ll = A.lit(left) if isinstance(left, str) else left.lang
            rr = A.lit(right) if isinstance(right, str) else right.lang
            # conservative when a part can be shorter than needed
            lshort = A.union([A.lit(u[k:]) for k in range(1, len(u) + 1)])
            rshort = A.union([A.lit(v[:k]) for k in range(0, len(v))])
            l_ok = not (ll & (A.ALL + A.lit(u))).empty() or (b > 1 and not (ll & lshort).empty())
            r_ok = not (rr & (A.lit(v) + A.ALL)).empty() or (b + 1 < len(parts) and not (rr & rshort).empty())
            if l_ok and r_ok:
                return True
    return False


def s_replace(interp, p, s, old, new, count=-1):
    if not (is_str(old) and is_str(new)):
        interp.throw(TypeError, 'replace() argument must be str')
    if isinstance(s, str) and isinstance(old, str) and isinstance(new, str) and isinstance(count, int):
        return s.replace(old, new, count)
    if count == 1 and isinstance(old, str) and old and is_str(s):
        parts = list(parts_of(s))
        if len(parts) <= 1 or len(old) == 1 or not crosses(parts, old):
            for i, q in enumerate(parts):
                if isinstance(q, str):
                    if old in q:
                        a, b = q.split(old, 1)
                        return rope(*parts[:i], a, new, b, *parts[i + 1:])
                elif not (q.lang & A.containing(old)).empty():
                    break
            else:
                return s
    if not isinstance(old, str) or count != -1 or not old:
        return p.derived('replace', [s, old, new, count], A.ALL)
    if isinstance(s, str):
        # literal s and old, symbolic new
        bits = s.split(old)
        out = []
        for i, b in enumerate(bits):
            if i:
                out.append(new)
            out.append(b)
        return rope(*out)
    parts = list(s.parts)
    if len(old) > 1 and len(parts) > 1 and crosses(parts, old):
        return p.derived('replace', [s, old, new, -1], A.ALL)
    out = []
    for q in parts:
        if isinstance(q, str):
            out.append(s_replace(interp, p, q, old, new))
            continue
        if (q.lang & A.containing(old)).empty():
            out.append(q)
            continue
        L = A.ALL
        if len(old) == 1 and isinstance(new, str):
            L = q.lang.subst(old, new)
        elif len(old) == 1 and isinstance(new, S):
            L = A.ALL
        elif isinstance(new, str):
            L = replace_lang(q.lang, old, new)
        out.append(p.derived('replace', [S((q,)), old, new, -1], L))
    return rope(*out)


def replace_lang(L, old, new):
    """superset of the images of L under replace(old, new)"""
    nolds = ~A.containing(old)
    # every image is a concatenation of old-free factors of L and `new`: only used for simple facts
    if new == '':
        return A.ALL
    return A.ALL


def s_split(interp, p, s, sep=None, maxsplit=-1):
    if isinstance(s, str) and isinstance(sep, (str, type(None))) and isinstance(maxsplit, int):
        if sep == '':
            interp.throw(ValueError, 'empty separator')
        return p.slist(s.split(sep, maxsplit))
    if sep is not None and not is_str(sep):
        interp.throw(TypeError, 'must be str or None')
    if isinstance(sep, str) and isinstance(s, S) and maxsplit == 1 and sep:
        r = cut(interp, s, sep)
        return p.slist([s] if r is None else [r[0], r[1]])
    if isinstance(sep, str) and len(sep) == 1 and isinstance(maxsplit, int) and 0 <= maxsplit <= 8:
        out = []
        for _ in range(maxsplit):
            r = cut(interp, s, sep)
            if r is None:
                break
            out.append(r[0])
            s = r[1]
        return p.slist(out + [s])
    if isinstance(sep, S):
        if p.fork_lang(sep.parts[0], A.EPS, 'emptysep') and len(sep.parts) == 1:
            interp.throw(ValueError, 'empty separator')
    k = ('split', repr(key_of(s)), repr(key_of(sep)), maxsplit if isinstance(maxsplit, int) else repr(maxsplit))
    cs = None
    if isinstance(sep, str) and len(sep) == 1:
        cs = A.chars_star(A.cs_neg(A.cs_chars(sep)))
    elif sep is None:
        cs = A.chars_star(A.cs_neg(A.SPACE)) - A.EPS
    L = (lang_of(s).factors() & cs) if cs is not None and maxsplit == -1 else A.ALL
    if maxsplit == -1 and sep == '\n':
        pass

    def elem(i, pp):
        return pp.atom('part', L, ('part', s, sep), ())
    seg = Seg('src', elem=elem, name='split', src=('split', s, sep, maxsplit), nonempty=sep is not None)
    return p.slist([seg], meta={'split': (s, sep, maxsplit)})


def cut(interp, s, sep):
    """first occurrence of literal sep: (before, after) ropes, or None"""
    p = interp.path
    parts = list(parts_of(s))
    if len(sep) > 1 and len(parts) > 1 and crosses(parts, sep):
        if not rope_contains(p, s, sep):
            return None
        b = p.derived('before', [s, sep], A.ALL - A.containing(sep))
        a = p.derived('after', [s, sep], A.ALL)
        return b, a
    for i, q in enumerate(parts):
        if isinstance(q, str):
            j = q.find(sep)
            if j >= 0:
                return rope(*parts[:i], q[:j]), rope(q[j + len(sep):], *parts[i + 1:])
            continue
        if (q.lang & A.containing(sep)).empty():
            continue
        if not p.fork_lang(q, A.containing(sep), 'has sep'):
            continue
        no = A.ALL - A.containing(sep)
        b = p.derived('before', [S((q,)), sep], (q.lang & (no + A.lit(sep) + A.ALL)).rquot(A.lit(sep) + A.ALL) & no)
        a = p.derived('after', [S((q,)), sep], q.lang.lquot(no + A.lit(sep)))
        return rope(*parts[:i], b), rope(a, *parts[i + 1:])
    return None


def rcut(interp, s, sep):
    p = interp.path
    parts = list(parts_of(s))
    if len(sep) > 1:
        raise Unsupported('rsplit')
    for i in range(len(parts) - 1, -1, -1):
        q = parts[i]
        if isinstance(q, str):
            j = q.rfind(sep)
            if j >= 0:
                return rope(*parts[:i], q[:j]), rope(q[j + 1:], *parts[i + 1:])
            continue
        if not p.fork_lang(q, A.containing(sep), 'has sep'):
            continue
        no = A.ALL - A.containing(sep)
        b = p.derived('rbefore', [S((q,)), sep], q.lang.rquot(A.lit(sep) + no))
        a = p.derived('rafter', [S((q,)), sep], q.lang.lquot(A.ALL + A.lit(sep)) & no)
        return rope(*parts[:i], b), rope(a, *parts[i + 1:])
    return None


def s_rsplit(interp, p, s, sep=None, maxsplit=-1):
    if isinstance(s, str) and isinstance(sep, (str, type(None))):
        return p.slist(s.rsplit(sep, maxsplit))
    if isinstance(sep, str) and maxsplit == 1 and len(sep) == 1:
        r = rcut(interp, s, sep)
        return p.slist([s] if r is None else list(r))
    if maxsplit == -1:
        return s_split(interp, p, s, sep)
    if isinstance(sep, str) and len(sep) == 1 and isinstance(maxsplit, int) and 0 <= maxsplit <= 8:
        out = []
        for _ in range(maxsplit):
            r = rcut(interp, s, sep)
            if r is None:
                break
            s, piece = r
            out.insert(0, piece)
        return p.slist([s] + out)
    raise Unsupported('rsplit')


def s_partition(interp, p, s, sep):
    if not is_str(sep):
        interp.throw(TypeError, 'must be str')
    if isinstance(s, str) and isinstance(sep, str):
        return s.partition(sep)
    if not isinstance(sep, str):
        raise Unsupported('partition')
    r = cut(interp, s, sep)
    return (s, '', '') if r is None else (r[0], sep, r[1])


def s_rpartition(interp, p, s, sep):
    if isinstance(s, str) and isinstance(sep, str):
        return s.rpartition(sep)
    if not isinstance(sep, str):
        raise Unsupported('rpartition')
    r = rcut(interp, s, sep)
    return ('', '', s) if r is None else (r[0], sep, r[1])


LINEBREAKS = A.cs_chars('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')


def s_splitlines(interp, p, s, keepends=False):
    if isinstance(s, str):
        return p.slist(s.splitlines(keepends))
    if keepends is not False:
        raise Unsupported('keepends')
    L = lang_of(s).factors() & A.chars_star(A.cs_neg(LINEBREAKS))

    def elem(i, pp):
        return pp.atom('line', L, ('line', s), ())
    return p.slist([Seg('src', elem=elem, name='lines', src=('splitlines', s))], meta={'splitlines': s})


def s_join(interp, p, sep, it):
    from .loops import items_of, LoopInfo
    if isinstance(it, Gen):
        it = interp.comp(it.node, it.frame)
    items = items_of(interp, it)
    out = []
    items = [x for x in items if not (isinstance(x, Seg) and p.memo.get(('seg', id(x))) is False)]
    for x in items:
        if isinstance(x, Seg):
            continue
        if not is_str(x):
            if isinstance(x, Opaque):
                raise Unsupported('join of an unknown value')
            interp.throw(TypeError, 'sequence item: expected str instance')
    n = 0
    for i, x in enumerate(items):
        if isinstance(x, Seg):
            # an unknown number of strings
            if x.kind == 'src':
                e = x.elem(interp, p)
                if not is_str(e):
                    interp.throw(TypeError, 'sequence item: expected str instance')
                alts, nothing = [e], 0
            else:
                alts, nothing = [], 0
                for alt in x.alts:
                    flat = flatten_alt(alt)
                    for y in flat:
                        if not is_str(y):
                            if isinstance(y, Seg):
                                raise Unsupported('nested segment')
                            interp.throw(TypeError, 'sequence item: expected str instance')
                    if not flat:
                        alts.append('')
                        nothing += 1
                    else:
                        alts.append(rope(*[q for y in flat for q in (y, sep)][:None if not sep else -1]) if sep == '' else join_rope(flat, sep))
            single = len(items) == 1
            a = Atom('join', A.ALL, ('join', sep, x, alts))
            p.new(a)
            a.lang = star_lang(alts, sep)
            if single:
                out.append(S((a,)))
            else:
                # the separators around a possibly empty segment
                if sep == '':
                    out.append(S((a,)))
                else:
                    if i == 0:
                        b = Atom('joinl', A.ALL, ('joinl', sep, x, alts))
                    else:
                        b = Atom('joinr', A.ALL, ('joinr', sep, x, alts))
                        if isinstance(sep, str) and not any(isinstance(y, Seg) for y in items[:i]):
                            ls = [lang_of(y) for y in alts if y != '']
                            if all(len(L.trans) <= 60 for L in ls):
                                # an empty alternative: nothing appended, or an empty string
                                ls += [A.EPS] if alts.count('') > nothing else []
                                b.lang = A.union([A.lit(sep) + L for L in ls]).star() if ls else A.EPS
                    p.new(b)
                    out.append(S((b,)))
        else:
            if out and sep and not (i and isinstance(items[i - 1], Seg) and i - 1 == 0):
                out.append(sep)
            out.append(x)
    return rope(*out)


def join_rope(flat, sep):
    out = []
    for y in flat:
        if out:
            out.append(sep)
        out.append(y)
    return rope(*out)


def flatten_alt(alt):
    out = []
    for y in alt:
        if isinstance(y, Seg) and y.kind == 'loop':
            raise Unsupported('nested loop segment')
        out.append(y)
    return out


def star_lang(alts, sep, cap=60):
    ls = [lang_of(a) for a in alts if a != '']
    if any(len(L.trans) > cap for L in ls):
        return A.ALL
    u = A.union(ls)
    if u.empty():
        return A.EPS if not sep or isinstance(sep, str) and True and not alts else (A.lit(sep).star() if isinstance(sep, str) else A.ALL)
    if isinstance(sep, S):
        return A.ALL
    if sep:
        u2 = u | A.EPS
        return A.EPS | (u2 + (A.lit(sep) + u2).star())
    return u.star()


def s_startswith(interp, p, s, pre, *rest):
    if rest:
        raise Unsupported('startswith with bounds')
    pres = pre if isinstance(pre, tuple) else (pre,)
    if not all(is_str(x) for x in pres):
        interp.throw(TypeError, 'startswith first arg must be str')
    if isinstance(s, str) and all(isinstance(x, str) for x in pres):
        return s.startswith(pres)
    if not all(isinstance(x, str) for x in pres):
        return bool_memo(p, ('sw', repr(key_of(s)), repr(key_of(pre))))
    at = atom_of(s)
    L = A.union([A.lit(x) + A.ALL for x in pres])
    if at is not None:
        return p.fork_lang(at, L, 'startswith')
    ls = lang_of(s)
    if ls <= L:
        return True
    if (ls & L).empty():
        return False
    return bool_memo(p, ('sw', repr(key_of(s)), pres))


def s_endswith(interp, p, s, suf, *rest):
    if rest:
        raise Unsupported('endswith with bounds')
    sufs = suf if isinstance(suf, tuple) else (suf,)
    if not all(is_str(x) for x in sufs):
        interp.throw(TypeError, 'endswith first arg must be str')
    if isinstance(s, str) and all(isinstance(x, str) for x in sufs):
        return s.endswith(sufs)
    if not all(isinstance(x, str) for x in sufs):
        return bool_memo(p, ('ew', repr(key_of(s)), repr(key_of(suf))))
    at = atom_of(s)
    L = A.union([A.ALL + A.lit(x) for x in sufs])
    if at is not None:
        return p.fork_lang(at, L, 'endswith')
    ls = lang_of(s)
    if ls <= L:
        return True
    if (ls & L).empty():
        return False
    return bool_memo(p, ('ew', repr(key_of(s)), sufs))


def s_find(interp, p, s, sub, *rest):
    if isinstance(s, str) and isinstance(sub, str) and all(isinstance(r, int) for r in rest):
        return s.find(sub, *rest)
    if rest:
        ln = length(interp, s)
        r = p.int('find', -1)
        p.assume(r.e <= zint(ln))
        return r
    if isinstance(sub, str):
        c = cut(interp, s, sub)
        if c is None:
            return -1
        return length(interp, c[0])
    return p.int('find', -1)


def s_index(interp, p, s, sub, *rest):
    if isinstance(s, str) and isinstance(sub, str):
        try:
            return s.index(sub, *rest)
        except ValueError:
            interp.throw(ValueError, 'substring not found')
    if isinstance(sub, str) and not rest:
        c = cut(interp, s, sub)
        if c is None:
            interp.throw(ValueError, 'substring not found')
        return length(interp, c[0])
    raise Unsupported('str.index')


def s_count(interp, p, s, sub, *rest):
    if isinstance(s, str) and isinstance(sub, str):
        return s.count(sub, *rest)
    return p.int('count', 0)


def s_case(name):
    def f(interp, p, s):
        if isinstance(s, str):
            return getattr(s, name)()
        out = []
        for q in s.parts:
            if isinstance(q, str) and name in ('lower', 'upper', 'casefold'):
                out.append(getattr(q, name)())
            elif isinstance(q, Atom) and name in ('lower', 'upper', 'casefold'):
                out.append(p.derived(name, [S((q,))], case_lang(q.lang, name)))
            else:
                return p.derived(name, [s], A.ALL)
        return rope(*out)
    return f


def case_lang(L, name):
    # only facts about non-letters survive
    if L.is_all():
        return A.ALL
    if not needs_all(L):
        return L.ascii_case(name != 'upper')
    letters = A.cs_norm([(c, c) for c in range(0x250) if chr(c).lower() != chr(c).upper()] + [(0x250, A.MAX)])
    try:
        return L.map_cs(letters, letters) if not needs_all(L) else A.ALL
    except Exception:
        return A.ALL


def needs_all(L):
    # case mappings may change the length (e.g. sharp s)
    cs = L.alphabet() if hasattr(L, 'alphabet') else None
    if cs is None:
        return True
    return bool(A.cs_and(cs, ((0x80, A.MAX),)))


def s_pred(name, cs=None):
    def f(interp, p, s):
        if isinstance(s, str):
            return getattr(s, name)()
        at = atom_of(s)
        if cs is not None:
            L = A.chars(cs()) + A.chars_star(cs())
            if at is not None:
                return p.fork_lang(at, L, name)
        return bool_memo(p, (name, repr(key_of(s))))
    return f


def s_encode(interp, p, s, encoding='utf-8', errors='strict'):
    if isinstance(s, str) and isinstance(encoding, str) and isinstance(errors, str):
        try:
            return s.encode(encoding, errors)
        except Exception as e:
            raise TExc(e, type(e))
    raise Unsupported('encode')


def s_just(kind):
    def f(interp, p, s, width, fill=' '):
        if isinstance(s, str) and isinstance(width, int) and isinstance(fill, str):
            return getattr(s, kind)(width, fill)
        if not isinstance(fill, str):
            raise Unsupported('fill')
        w = zint(width) if isinstance(width, (int, SI)) else None
        if w is None:
            interp.throw(TypeError, 'width must be an int')
        ln = zint(length(interp, s))
        padlen = mkint(z3.If(w > ln, w - ln, z3.IntVal(0)))
        if s == '' and isinstance(s, str):
            return repeat(interp, fill, padlen)

        def pad(n, tag):
            if isinstance(n, int):
                return fill * n
            r = p.derived('pad' + tag, [s, width, fill], A.lit(fill).star())
            at = atom_of(r)
            if at is not None and at._len is None:
                at._len = n
            return r
        if kind == 'ljust':
            return rope(s, pad(padlen, 'l'))
        if kind == 'rjust':
            return rope(pad(padlen, 'r'), s)
        l = p.derived('padcl', [s, width, fill], A.lit(fill).star())
        r = p.derived('padcr', [s, width, fill], A.lit(fill).star())
        la, ra = atom_of(l), atom_of(r)
        if la is not None and ra is not None and la._len is None:
            la._len = p.int('padl', 0)
            ra._len = p.int('padr', 0)
            p.assume(la._len.e + ra._len.e == zint(padlen))
        return rope(l, s, r)
    return f


def alnum_cs():
    return A.cs_norm([(ord(c), ord(c)) for c in map(chr, range(0x110000)) if c.isalnum()])


@functools.lru_cache(None)
def pred_cs(name):
    return A.cs_norm([(i, i) for i in range(A.MAX + 1) if getattr(chr(i), name)()])


STR = {
    'strip': s_strip, 'lstrip': s_lstrip, 'rstrip': s_rstrip, 'replace': s_replace, 'split': s_split,
    'rsplit': s_rsplit, 'partition': s_partition, 'rpartition': s_rpartition, 'splitlines': s_splitlines,
    'join': s_join, 'startswith': s_startswith, 'endswith': s_endswith, 'find': s_find, 'index': s_index,
    'count': s_count, 'lower': s_case('lower'), 'upper': s_case('upper'), 'title': s_case('title'),
    'capitalize': s_case('capitalize'), 'casefold': s_case('casefold'), 'format': str_format,
    'isspace': s_pred('isspace', lambda: A.SPACE), 'isdecimal': s_pred('isdecimal', lambda: A.category('digit')),
    'isdigit': s_pred('isdigit', lambda: pred_cs('isdigit')), 'isalpha': s_pred('isalpha', lambda: pred_cs('isalpha')),
    'isalnum': s_pred('isalnum', lambda: pred_cs('isalnum')), 'isupper': s_pred('isupper'), 'islower': s_pred('islower'),
    'isidentifier': s_pred('isidentifier'), 'encode': s_encode,
    'ljust': s_just('ljust'), 'rjust': s_just('rjust'), 'center': s_just('center'),
}


# ------------------------------------------------------------------ list, dict, set methods
def log_list(p, o):
    p.log.append(('l', o, None, list(o.items)))


def l_append(interp, p, o, x):
    log_list(p, o)
    o.items.append(x)
    h = interp.hooks.get('append')
    if h:
        h(interp, o, x)


def l_extend(interp, p, o, it):
    log_list(p, o)
    o.items.extend(to_items(interp, it))


def l_insert(interp, p, o, i, x):
    if isinstance(i, (int, SI)):
        n = length(interp, o)
        if i >= n if isinstance(i, int) and isinstance(n, int) else p.entails(zint(i) >= zint(n)):
            l_append(interp, p, o, x)
            return
    if not isinstance(i, int):
        raise Unsupported('insert')
    if i == 0 or o.concrete:
        log_list(p, o)
        o.items.insert(i, x)
        return
    raise Unsupported('insert')


def pop(interp, p, o, i=-1):
    if isinstance(i, slice):
        if not any(isinstance(x, Seg) for x in o.items) and all(isinstance(x, (int, type(None))) for x in (i.start, i.stop, i.step)):
            log_list(p, o)
            del o.items[i]
            return
        if i.start is None and i.stop is None and i.step is None:
            log_list(p, o)
            o.items[:] = []
            return
        cut = cut_points(interp, o.items, i)
        if cut is not None:
            log_list(p, o)
            del o.items[cut[0]:cut[1]]
            return
        raise Unsupported('del slice')
    if not isinstance(i, int):
        raise Unsupported('pop')
    items = live_items(p, o)
    log_list(p, o)
    o.items[:] = items
    if not items:
        interp.throw(IndexError, 'pop from empty list')
    if i not in (0, -1):
        if o.concrete:
            if not -len(items) <= i < len(items):
                interp.throw(IndexError, 'pop index out of range')
            return o.items.pop(i)
        raise Unsupported('pop')
    x = items[i]
    if not isinstance(x, Seg):
        return o.items.pop(i)
    while isinstance(x, Seg):
        if seg_nonempty(p, x):
            key = ('segend', id(x), i == 0)
            from .loops import seg_elem
            v = p.memo.get(key) or seg_elem(interp, x)
            rest = Seg('src', elem=lambda ip, pp, x=x: _seg_elem(ip, x), name=x.name + '-1', src=('init' if i == -1 else 'tail', x, v))
            p.memo[('segref', id(rest))] = rest
            o.items[i] = rest
            return v
        o.items.pop(i)
        if not o.items:
            interp.throw(IndexError, 'pop from empty list')
        x = o.items[i]
    return o.items.pop(i)


def l_remove(interp, p, o, x):
    if o.concrete:
        for n, y in enumerate(o.items):
            if truth(interp, eq(interp, y, x)):
                log_list(p, o)
                del o.items[n]
                return
        interp.throw(ValueError, 'not in list')
    raise Unsupported('remove')


def l_sort(interp, p, o, **kw):
    if len(o.items) < 2 and o.concrete:
        return
    raise Unsupported('sort')


def l_reverse(interp, p, o):
    log_list(p, o)
    o.items[:] = [other_order(x, 'reversed') for x in reversed(o.items)]


def l_clear(interp, p, o):
    log_list(p, o)
    o.items[:] = []


def l_copy(interp, p, o):
    return p.slist(list(o.items), o.kind)


def l_index(interp, p, o, x):
    if o.concrete:
        for n, y in enumerate(o.items):
            if truth(interp, eq(interp, y, x)):
                return n
        interp.throw(ValueError, 'not in list')
    raise Unsupported('list.index')


def l_count(interp, p, o, x):
    return p.int('count', 0)


def set_add(interp, p, o, x):
    log_list(p, o)
    h = interp.hooks.get('set_add')
    if h:
        h(interp, o, x)
    o.items.append(x)


def set_discard(interp, p, o, x):
    raise Unsupported('discard')


LIST = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': pop, 'remove': l_remove, 'sort': l_sort,
        'reverse': l_reverse, 'clear': l_clear, 'copy': l_copy, 'index': l_index, 'count': l_count}
SET = {'add': set_add, 'discard': set_discard, 'copy': l_copy, 'clear': l_clear, 'update': l_extend}


def d_get(interp, p, d, k, default=None):
    if truth(interp, dict_has(interp, d, k)):
        return dict_get(interp, d, k)
    return default


def d_pop(interp, p, d, k, *default):
    if d.sym is not None:
        if truth(interp, dict_has(interp, d, k)):
            v = dict_get(interp, d, k)
            what = d.meta.get('real')
            if what is not None and p.extra.get('shared_write'):
                p.extra['shared_write'](what)
            if symbolic(canon(k)):
                raise Unsupported('pop of a symbolic key')
            p.log.append(('d', d, None, dict(d.d)))
            d.d.pop(canon(k), None)
            d.sym = Without(d.sym, canon(k))
            return v
        if default:
            return default[0]
        interp.throw(KeyError, k)
    k = canon(k)
    if symbolic(k):
        raise Unsupported('pop of a symbolic key')
    if k in d.d:
        p.log.append(('d', d, None, dict(d.d)))
        return d.d.pop(k)
    if default:
        return default[0]
    interp.throw(KeyError, k)


def d_setdefault(interp, p, d, k, v=None):
    if truth(interp, dict_has(interp, d, k)):
        return dict_get(interp, d, k)
    setitem(interp, d, k, v)
    return v


def d_update(interp, p, d, *a, **kw):
    p.log.append(('d', d, None, dict(d.d)))
    for x in a:
        dict_update(interp, d, x)
    for k, v in kw.items():
        setitem(interp, d, k, v)


def d_copy(interp, p, d):
    if d.sym is not None and isinstance(d.sym, GrownDict):
        raise Unsupported('copy of a grown dict')
    return p.sdict(dict(d.d), d.sym, dict(d.meta))


def d_clear(interp, p, d):
    p.log.append(('d', d, None, dict(d.d)))
    d.d.clear()
    d.sym = None


DICT = {
    'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update, 'copy': d_copy, 'clear': d_clear,
    'keys': lambda i, p, d: p.slist(dict_keys(i, d)), 'items': lambda i, p, d: p.slist(dict_items(i, d)),
    'values': lambda i, p, d: p.slist(dict_values(i, d)),
}


def method(interp, o, name):
    t = None
    if is_str(o):
        t = STR.get(name)
        if t is None and isinstance(o, str) and hasattr(o, name):
            return getattr(o, name)
        if t is None and hasattr(str, name):
            raise Unsupported(f'str.{name}')
    elif isinstance(o, SList):
        t = (SET if o.kind == 'set' else LIST).get(name)
        if t is None and hasattr(set if o.kind == 'set' else list, name):
            raise Unsupported(f'list.{name}')
    elif isinstance(o, SDict):
        t = DICT.get(name)
        if t is None and hasattr(dict, name):
            raise Unsupported(f'dict.{name}')
    elif isinstance(o, re.Pattern):
        from . import rematch
        return rematch.pattern_method(interp, o, name)
    elif isinstance(o, (SI,)):
        if hasattr(int, name):
            raise Unsupported(f'int.{name}')
    if t is None:
        return None
    return Builtin(name, lambda i, p, *a, **k: t(i, p, o, *a, **k))


# ------------------------------------------------------------------ with
def enter(interp, cm):
    p = interp.path
    if isinstance(cm, Opaque) and cm.spec is not None and hasattr(cm.spec, 'enter'):
        return cm.spec.enter(interp, p, cm)
    raise Unsupported('with')


def exit(interp, cm, exc):
    p = interp.path
    return cm.spec.exit(interp, p, cm, exc)


# ------------------------------------------------------------------ built-in functions
def b_len(interp, p, v):
    return length(interp, v)


def b_isinstance(interp, p, v, cls):
    cs = cls if isinstance(cls, tuple) else (cls,)
    if isinstance(v, Opaque):
        if v.spec is not None and hasattr(v.spec, 'isinstance'):
            return v.spec.isinstance(interp, p, v, cs)
        raise Unsupported('isinstance of an unknown value')
    for c in cs:
        if is_str(v):
            if c in (str, object):
                return True
        elif isinstance(v, SB) or isinstance(v, bool):
            if c in (bool, int, object):
                return True
        elif isinstance(v, (SI, int)):
            if c in (int, object):
                return True
        elif isinstance(v, SList):
            if c in ((set if v.kind == 'set' else list), object):
                return True
        elif isinstance(v, SDict):
            if c in (dict, object):
                return True
        elif isinstance(v, Obj):
            if issubclass(v.cls, c):
                return True
            if v.meta.get('subclass') and issubclass(c, v.cls):
                if bool_memo(p, ('isexc', v.rid, c.__name__)):
                    return True
        elif isinstance(v, (Func, Bound, Builtin)):
            import types
            if c in (types.FunctionType, types.MethodType):
                raise Unsupported('isinstance function')
        elif isinstance(v, c):
            return True
    return False


def b_callable(interp, p, v):
    if isinstance(v, Opaque):
        if v.spec is not None and hasattr(v.spec, 'callable'):
            return v.spec.callable(interp, p, v)
        return bool_memo(p, ('callable', v.rid))
    if isinstance(v, (Func, Bound, Builtin, type)):
        return True
    if isinstance(v, Obj):
        from .interp import MISSING
        return interp.class_attr(v.cls, '__call__') is not MISSING or bool(v.meta.get('call'))
    if isinstance(v, (S, SI, SB, SList, SDict)):
        return False
    return callable(v)


def b_hasattr(interp, p, o, name):
    if isinstance(o, Opaque) and o.spec is not None and hasattr(o.spec, 'hasattr'):
        return o.spec.hasattr(interp, p, o, name)
    m = object()
    try:
        return interp.getattr(o, name, m) is not m
    except TExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def b_getattr(interp, p, o, name, *default):
    from .interp import MISSING
    if isinstance(name, S):
        at = atom_of(name)
        ws = lang_of(name).finite_words(200) if lang_of(name) is not None else None
        if isinstance(o, Opaque) and o.spec is not None and hasattr(o.spec, 'getattr_sym'):
            return o.spec.getattr_sym(interp, p, o, canon(name), *default)
        if isinstance(o, Obj) and o.lazy is None and at is None and len([q for q in name.parts if not isinstance(q, str)]) == 1:
            # one of the names that the object has, or none
            names = set(o.fields)
            for c in o.cls.__mro__:
                names.update(c.__dict__)
            pre = name.parts[0] if isinstance(name.parts[0], str) else ''
            post = name.parts[-1] if isinstance(name.parts[-1], str) else ''
            q = [q for q in name.parts if not isinstance(q, str)][0]
            for n in sorted(names):
                if len(n) >= len(pre) + len(post) and n.startswith(pre) and n.endswith(post):
                    if p.fork_lang(q, A.lit(n[len(pre):len(n) - len(post)]), 'getattr'):
                        return b_getattr(interp, p, o, n, *default)
            if default:
                return default[0]
            interp.throw(AttributeError, 'no such attribute')
        if ws is None:
            raise Unsupported('getattr with an unknown name')
        ws = sorted(ws)
        i = p.choose(len(ws), 'getattr name')
        if at is not None:
            p.refine(at, A.lit(ws[i]))
        elif len(name.parts) <= 3:
            fixed = [q for q in name.parts if isinstance(q, Atom)]
            if len(fixed) == 1:
                pre = name.parts[0] if isinstance(name.parts[0], str) else ''
                post = name.parts[-1] if isinstance(name.parts[-1], str) else ''
                p.refine(fixed[0], A.lit(ws[i][len(pre):len(ws[i]) - len(post)]))
        name = ws[i]
    if not isinstance(name, str):
        interp.throw(TypeError, 'attribute name must be string')
    if default:
        try:
            return interp.getattr(o, name, default[0])
        except TExc as e:
            if issubclass(e.cls, AttributeError):
                return default[0]
            raise
    return interp.getattr(o, name)


def b_setattr(interp, p, o, name, v):
    if not isinstance(name, str):
        raise Unsupported('setattr with an unknown name')
    interp.setattr(o, name, v)


def b_int(interp, p, v=0, *base, **kw):
    if isinstance(v, (SI,)):
        return v
    if isinstance(v, SB):
        return mkint(z3.If(v.e, 1, 0))
    if is_str(v):
        if kw:
            base = (kw['base'],)
        if isinstance(v, str) and all(isinstance(b, int) for b in base):
            try:
                return int(v, *base)
            except ValueError as e:
                interp.throw(ValueError, 'invalid literal for int()')
        if base and base[0] == 16:
            hexd = A.chars(A.cs_norm(A.category('digit') + A.cs_chars('abcdefABCDEF')))
            syn = A.SPACES + (A.EPS | A.lit('+') | A.lit('-')) + (A.EPS | A.lit('0x') | A.lit('0X') | A.lit('0x_') | A.lit('0X_')) + \
                hexd + ((A.lit('_') | A.EPS) + hexd).star() + A.SPACES
        elif not base or base[0] == 10:
            syn = A.INT_SYNTAX
        else:
            raise Unsupported('int base')
        at = atom_of(v)
        L = lang_of(v)
        if at is not None:
            ok = p.fork_lang(at, syn, 'int syntax')
        elif L <= syn:
            ok = True
        elif (L & syn).empty():
            ok = False
        else:
            ok = bool_memo(p, ('intsyn', repr(key_of(v)), base))
        if ok:
            lo, hi = lang_of(v).lengths()
            if (hi is None or hi > 4300) and not (base and base[0] == 16):
                # more digits than sys.get_int_max_str_digits()
                k = ('intdigits', repr(key_of(v)), base)
                if k not in p.memo:
                    p.memo[k] = p.choose(2, 'int digits')
                if p.memo[k] == 1:
                    interp.throw(ValueError, 'Exceeds the limit for integer string conversion')
            k = ('int', repr(key_of(v)), base)
            if k not in p.memo:
                lo0 = 0 if (lang_of(v) & (A.ALL + A.lit('-') + A.ALL)).empty() else None
                ws = lang_of(v).finite_words(40)
                ns = sorted({int(w, *base) for w in ws}) if ws else None
                p.memo[k] = p.int('int', ns[0] if ns else lo0, ns[-1] if ns else None)
                if ns and ns[-1] - ns[0] >= len(ns):
                    p.assume(z3.Or(*[p.memo[k].e == n for n in ns]))
                p.extra.setdefault('intof', {})[str(p.memo[k].e)] = (v, base)
            return p.memo[k]
        interp.throw(ValueError, 'invalid literal for int()')
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, Opaque):
        raise Unsupported('int()')
    interp.throw(TypeError, 'int() argument')


def b_bool(interp, p, v=False):
    if isinstance(v, SB):
        return v
    return truth(interp, v)


def b_chr(interp, p, v):
    if isinstance(v, int):
        try:
            return chr(v)
        except (ValueError, OverflowError) as e:
            raise TExc(e, type(e))
    if isinstance(v, SI):
        if p.branch(z3.And(v.e >= 0, v.e <= 0x10FFFF), 'chr range'):
            return p.derived('chr', [v], A.chars(A.FULL))
        if p.branch(z3.And(v.e >= -2147483648, v.e <= 2147483647), 'chr C int'):
            interp.throw(ValueError, 'chr() arg not in range')
        interp.throw(OverflowError, 'Python int too large to convert to C int')
    interp.throw(TypeError, 'an integer is required')


def b_ord(interp, p, v):
    if isinstance(v, str):
        return ord(v)
    return p.int('ord', 0, 0x10FFFF)


def b_list(interp, p, it=()):
    items = to_items(interp, it)
    return p.slist(items)


def b_tuple(interp, p, it=()):
    items = to_items(interp, it)
    if any(isinstance(x, Seg) for x in items):
        return p.slist(items)       # an immutable list
    return tuple(items)


def b_set(interp, p, it=()):
    return p.slist([other_order(x, 'set') for x in to_items(interp, it)], kind='set')


def b_dict(interp, p, *a, **kw):
    d = p.sdict()
    for x in a:
        if isinstance(x, Opaque):
            if x.spec is not None and hasattr(x.spec, 'as_dict'):
                d = x.spec.as_dict(interp, p, x)
                continue
            raise Unsupported('dict()')
        if isinstance(x, SList) and not x.concrete:
            # list of pairs: keys and values as the segment gives them
            if len(x.items) == 1:
                d.sym = PairDict(x.items[0])
                continue
            d.sym = ListDict(list(x.items))
            continue
        dict_update(interp, d, x)
    for k, v in kw.items():
        if k == '**':
            for w in kw:
                if w != '**' and dict_has(interp, v, w):
                    interp.throw(TypeError, 'got multiple values for keyword argument')
            dict_update(interp, d, v)
            continue
        d.d[k] = v
    return d


class ListDict:
    """the dict of a list of pairs, some of them in segments: the last pair with the key counts"""

    def __init__(self, items):
        self.items = items

    def find(self, interp, k):
        """the last pair with the key; None if there is none; PathEnd is raised for more than it can tell"""
        for x in reversed(self.items):
            e = _seg_elem(interp, x) if isinstance(x, Seg) else x
            if not isinstance(e, tuple) or len(e) != 2 or not is_str(e[0]) or not is_str(k):
                raise Unsupported('dict of an unknown list')
            if (lang_of(e[0]) & lang_of(k)).empty():
                continue
            if isinstance(x, Seg):
                raise Unsupported('a key that may be in the unknown part of a list')
            if eq(interp, e[0], k):
                return e
        return None

    def has(self, interp, p, d, k):
        return self.find(interp, k) is not None

    def value(self, interp, p, d, k):
        e = self.find(interp, k)
        if e is None:
            raise PathEnd()
        return e[1]

    def key(self, interp, p, d):
        raise Unsupported('the keys of an unknown list')


class PairDict:
    def __init__(self, seg):
        self.seg = seg

    def key(self, interp, p, d):
        e = _seg_elem(interp, self.seg)
        return e[0]

    def value(self, interp, p, d, k):
        e = _seg_elem(interp, self.seg)
        return e[1]


def b_sorted(interp, p, it, key=None, reverse=False):
    from .interp import all_concrete, lower
    items = to_items(interp, it)
    if len(items) < 2 and not any(isinstance(x, Seg) for x in items):
        return p.slist(items)
    if all_concrete(items) and key is None and isinstance(reverse, bool):
        try:
            return p.slist(sorted(items, reverse=reverse))
        except TypeError as e:
            raise TExc(e, TypeError)
    r = p.slist(items, meta={'sorted': True})
    if any(isinstance(x, Seg) for x in items) and len(items) == 1:
        h = interp.hooks.get('sorted')
        if h:
            h(interp, it, r, key)
        r.items[:] = [other_order(r.items[0], 'sorted')]
        return r
    raise Unsupported('sorted')


def b_reversed(interp, p, it):
    if isinstance(it, range):
        return list(reversed(it))
    items = to_items(interp, it)
    return p.slist([other_order(x, 'reversed') for x in reversed(items)])


def other_order(x, how):
    """the elements of a segment in another order"""
    if not isinstance(x, Seg):
        return x
    return Seg('src', elem=lambda ip, pp: _seg_elem(ip, x), name=x.name, src=(how, x), nonempty=x.nonempty)


def b_enumerate(interp, p, it, start=0):
    items = to_items(interp, it)
    out = []
    n = start
    known = True
    for x in items:
        if isinstance(x, Seg):
            lo = zint(n)

            def el(ip, pp, x=x, lo=lo):
                i = pp.int('i')
                pp.assume(i.e >= lo)
                return (i, _seg_elem(ip, x))
            s = Seg('src', elem=el, name='enumerate', src=x.src, nonempty=x.nonempty)
            out.append(s)
            n = mkint(lo + zint(seg_len(p, x)))
        else:
            out.append((n, x))
            n = mkint(zint(n) + 1)
    return p.slist(out)


def b_zip(interp, p, *its):
    if len(its) == 1 and isinstance(its[0], tuple) and len(its[0]) == 2 and its[0][0] == '*' and isinstance(its[0][1], SList):
        return transposed(interp, p, its[0][1])
    lists = [to_items(interp, i) for i in its]
    if all(not isinstance(x, Seg) for l in lists for x in l):
        return p.slist([tuple(t) for t in zip(*lists)])
    if all(len(l) == 1 and isinstance(l[0], Seg) for l in lists):
        segs = [l[0] for l in lists]
        return p.slist([Seg('src', elem=lambda ip, pp: tuple(_seg_elem(ip, s) for s in segs), name='zip')])
    return zipped(interp, p, lists)


def some_item(interp, p, items):
    """an item at an unknown place"""
    if not items:
        raise PathEnd()
    x = items[p.choose(len(items), 'item')]
    return _seg_elem(interp, x) if isinstance(x, Seg) else x


def sum_len(p, items):
    e = z3.IntVal(0)
    for x in items:
        e = e + (zint(seg_len(p, x)) if isinstance(x, Seg) else 1)
    return z3.simplify(e)


def zipped(interp, p, lists):
    """lists with segments: the places where all lists have the same number of items before them are found by the
    solver; between two of them the items are paired in an unknown way"""
    total = [sum_len(p, l) for l in lists]
    if not all(p.entails(t == total[0]) for t in total[1:]):
        raise Unsupported('zip of lists of different length')
    cuts = [[0] * len(lists)]
    for i in range(1, len(lists[0]) + 1):
        want = sum_len(p, lists[0][:i])
        row = [i]
        for k, l in enumerate(lists[1:], 1):
            j = next((j for j in range(cuts[-1][k], len(l) + 1) if p.entails(sum_len(p, l[:j]) == want)), None)
            if j is None:
                break
            row.append(j)
        else:
            cuts.append(row)
    if cuts[-1] != [len(l) for l in lists]:
        cuts.append([len(l) for l in lists])
    out = []
    for a, b in zip(cuts, cuts[1:]):
        parts = [l[i:j] for l, i, j in zip(lists, a, b)]
        if all(len(x) == 1 and not isinstance(x[0], Seg) for x in parts):
            out.append(tuple(x[0] for x in parts))
        elif any(parts):
            seg = Seg('src', elem=lambda ip, pp, parts=parts: tuple(some_item(ip, pp, x) for x in parts), name='zip')
            seg.n = (p, mkint(sum_len(p, parts[0])))
            out.append(seg)
    return p.slist(out)


def transposed(interp, p, rows):
    """zip(*rows), rows: lists of the same length; at least one of them is there in full, it gives the places"""
    full = [x for x in rows.items if isinstance(x, SList)]
    if not full or not all(isinstance(x, (SList, Seg)) for x in rows.items):
        raise Unsupported('zip(*...)')
    n = sum_len(p, full[0].items)
    for x in rows.items:
        if isinstance(x, SList) and not p.entails(sum_len(p, x.items) == n):
            raise Unsupported('zip of lists of different length')
    same_length(interp, p, rows, n)
    out = []
    for i, c in enumerate(full[0].items):
        want = sum_len(p, full[0].items[:i])

        def column(ip, pp, i=i, c=c, explicit=False):
            res = []
            for x in rows.items:
                if isinstance(x, Seg):
                    seg = Seg('src', elem=lambda ip, pp, x=x: some_item(ip, pp, row_items(ip, x)), name='column', src=('column', x))
                    seg.n = (pp, seg_len(pp, x))
                    res.append(seg)
                elif x is full[0]:
                    res.append(_seg_elem(ip, c) if isinstance(c, Seg) else c)
                else:
                    res.append(some_item(ip, pp, x.items))
            return pp.slist(res)
        if isinstance(c, Seg):
            seg = Seg('src', elem=column, name='columns', src=('columns', c))
            seg.n = (p, seg_len(p, c))
            out.append(seg)
        else:
            out.append(column(interp, p))
    return p.slist(out)


def row_items(interp, seg):
    e = _seg_elem(interp, seg)
    return list(e.items) if isinstance(e, SList) else to_items(interp, e)


def same_length(interp, p, rows, n):
    """every item of every segment of rows is a list of n items (explored on a path of its own)"""
    for k, x in enumerate(rows.items):
        if isinstance(x, Seg) and p.choose(2, f'row {k}') == 0:
            e = _seg_elem(interp, x)
            if not isinstance(e, SList) or not p.entails(sum_len(p, e.items) == n):
                if p.check() == z3.unsat:
                    raise PathEnd()
                raise Unsupported('zip of lists of different length')
            raise PathEnd()


def b_range(interp, p, *a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if not all(isinstance(x, (int, SI)) for x in a):
        interp.throw(TypeError, 'range() integer')
    if len(a) == 1:
        lo, hi = z3.IntVal(0), zint(a[0])
    elif len(a) == 2:
        lo, hi = zint(a[0]), zint(a[1])
    else:
        raise Unsupported('range step')

    def el(ip, pp):
        i = pp.int('i')
        pp.assume(z3.And(i.e >= lo, i.e < hi))
        if pp.check() == z3.unsat:
            raise PathEnd()
        return i
    seg = Seg('src', elem=el, name='range', src=('range', lo, hi))
    p.memo[('seglen', id(seg))] = mkint(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    p.memo[('segref', id(seg))] = seg
    return p.slist([seg], meta={'range': (lo, hi)})


def b_minmax(name):
    def f(interp, p, *a, **kw):
        from .interp import all_concrete
        if kw and set(kw) != {'default'}:
            raise Unsupported(name)
        if len(a) == 1:
            items = to_items(interp, a[0])
        else:
            items = list(a)
        if any(isinstance(x, Seg) for x in items):
            segs = [x for x in items if isinstance(x, Seg)]
            rest = [x for x in items if not isinstance(x, Seg)]
            if not rest:
                for s in segs:
                    if seg_nonempty(p, s):
                        break
                else:
                    if 'default' in kw:
                        return kw['default']
                    interp.throw(ValueError, 'arg is an empty sequence')
            h = interp.hooks.get('minmax')
            if h:
                r = h(interp, name, items)
                if r is not None:
                    return r
            r = p.int(name)

            def bound(ip, v):
                if isinstance(v, (int, SI)):
                    p.assume(zint(v) <= r.e if name == 'max' else zint(v) >= r.e)
            for x in rest:
                bound(interp, x)
            for s in segs:
                fs = p.extra.setdefault('segfacts', {})
                fs.setdefault(id(s), []).append(bound)
                p.memo[('segref', id(s))] = s
                m = p.extra.get('mapf', {}).get(id(s))
                if m is not None:
                    # a list made by a function of the items of another list
                    fs.setdefault(id(m[1]), []).append(lambda ip, e, f=m[2]: bound(ip, ip.call(f, (e,))))
            return r
        if not items:
            if 'default' in kw:
                return kw['default']
            interp.throw(ValueError, f'{name}() arg is an empty sequence')
        if all(isinstance(x, (int, SI)) for x in items):
            e = zint(items[0])
            for x in items[1:]:
                y = zint(x)
                e = z3.If(y > e, y, e) if name == 'max' else z3.If(y < e, y, e)
            return mkint(e)
        if all_concrete(items):
            return (max if name == 'max' else min)(items)
        raise Unsupported(name)
    return f


def b_sum(interp, p, it, start=0):
    items = to_items(interp, it)
    if all(isinstance(x, (int, SI)) for x in items):
        e = zint(start)
        for x in items:
            e = e + zint(x)
        return mkint(e)
    lo = None
    return p.int('sum')


def b_anyall(name):
    def f(interp, p, it):
        from .loops import items_of
        g = it
        if isinstance(it, Gen):
            return anyall_gen(interp, p, it, name)
        items = to_items(interp, it)
        for x in items:
            if isinstance(x, Seg):
                if bool_memo(p, (name, id(x))):
                    if name == 'any':
                        return True
                elif name == 'all':
                    return False
                continue
            t = truth(interp, x)
            if name == 'any' and t:
                return True
            if name == 'all' and not t:
                return False
        return name == 'all'
    return f


def anyall_gen(interp, p, g, name):
    lst = interp.comp(g.node, g.frame)
    return b_anyall(name)(interp, p, lst)


def b_type(interp, p, v, *rest):
    if rest:
        raise Unsupported('type()')
    if isinstance(v, Obj):
        return v.cls
    if is_str(v):
        return str
    if isinstance(v, SB):
        return bool
    if isinstance(v, SI):
        return int
    if isinstance(v, SList):
        return set if v.kind == 'set' else list
    if isinstance(v, SDict):
        return dict
    if isinstance(v, Opaque):
        return p.opaque('type')
    return type(v)


def b_print(interp, p, *a, **kw):
    h = interp.hooks.get('print')
    if h:
        h(interp, a, kw)
        return None
    p.trace.append(('print', a))
    return None


def b_repr(interp, p, v):
    return repr_(interp, p, v)


def b_iter(interp, p, v):
    return p.slist(to_items(interp, v))


def b_map(interp, p, f, *its):
    if len(its) != 1:
        raise Unsupported('map')
    from . import loops
    out = p.slist()

    def body(x):
        r = interp.call(f, (x,))
        p.log.append(('l', out, None, None))
        out.items.append(r)
    loops.iterate(interp, its[0], MAPNODE, interp.frames[-1], body)
    note_map(p, out, f)
    return out


def note_map(p, out, f):
    """the items of out are f(items of the source)"""
    for x in out.items:
        if isinstance(x, Seg) and x.src is not None and x.src[0] == 'map':
            p.extra.setdefault('mapf', {})[id(x)] = (x, x.src[1], f)


class _N:
    lineno = -1
    iter = None


MAPNODE = _N()


def b_filter(interp, p, f, it):
    from . import loops
    out = p.slist()

    def body(x):
        r = truth(interp, x) if f is None else truth(interp, interp.call(f, (x,)))
        if r:
            p.log.append(('l', out, None, None))
            out.items.append(x)
    loops.iterate(interp, it, MAPNODE, interp.frames[-1], body)
    return out


def b_exc_info(interp, p):
    for f in reversed(interp.frames):
        if f.handling:
            e = f.handling[-1]
            v = e.value
            return (e.cls, v, p.opaque('traceback'))
    return (None, None, None)


def b_format(interp, p, v, spec=''):
    return format_(interp, v, spec)


def b_abs(interp, p, v):
    if isinstance(v, SI):
        return mkint(z3.If(v.e < 0, -v.e, v.e))
    return abs(v)


def b_issubclass(interp, p, a, b):
    return issubclass(a, b)


def b_id(interp, p, v):
    return p.int('id', 0)


def b_str(interp, p, v='', *rest):
    return str_(interp, p, v, *rest)


def b_vars(interp, p, *a):
    raise Unsupported('vars')


def basename(interp, p, s):
    if isinstance(s, str):
        import posixpath
        return posixpath.basename(s)
    if not isinstance(s, S):
        interp.throw(TypeError, 'expected str, bytes or os.PathLike object')
    return p.derived('basename', [s], lang_of(s).factors() & A.chars_star(A.cs_neg(A.cs_chars('/'))))


def json_dumps(interp, p, v, **kw):
    from .interp import all_concrete, lower
    if all_concrete([v]) and all_concrete(list(kw.values())):
        import json
        try:
            return json.dumps(lower(v), **{k: lower(x) for k, x in kw.items()})
        except Exception as e:
            raise TExc(e, type(e))
    if is_str(v) and not kw:
        return p.derived('json.dumps', [v], JSON_STR)
    if isinstance(v, SI) and not kw:
        return str_(interp, p, v)
    if isinstance(v, (Opaque,)):
        raise Unsupported('json.dumps of an unknown value')
    return p.derived('json.dumps', [repr(v)], A.ALL)


# json.dumps with ensure_ascii: printable ASCII between double quotes; inner quotes and backslashes escaped
JSON_STR = A.lit('"') + ((A.chars(A.cs_and(((32, 126),), A.cs_neg(A.cs_chars('"\\'))))) |
                         (A.lit('\\') + A.chars(A.cs_chars('"\\bfnrt'))) |
                         (A.lit('\\u') + A.NAT_HEX4 if hasattr(A, 'NAT_HEX4') else A.lit('\\u') +
                          functools.reduce(lambda a, b: a + b, [A.chars(A.cs_chars('0123456789abcdef'))] * 4))).star() + A.lit('"')


def re_fn(name):
    def f(interp, p, pattern, *a, **kw):
        from . import rematch
        flags = kw.pop('flags', 0)
        pat = pattern
        if not isinstance(pat, re.Pattern):
            if not isinstance(pat, str):
                raise Unsupported('re with an unknown pattern')
            pat = re.compile(pat, flags)
        return rematch.pattern_method(interp, pat, name).fn(interp, p, *a, **kw)
    return f


def re_compile(interp, p, pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return pattern
    if isinstance(pattern, str) and isinstance(flags, int):
        try:
            return re.compile(pattern, flags)
        except re.error as e:
            raise TExc(e, re.error)
    raise Unsupported('re.compile of an unknown pattern')


def re_escape(interp, p, s):
    if isinstance(s, str):
        return re.escape(s)
    raise Unsupported('re.escape')


TABLE = {}


def register():
    import json
    import posixpath
    import sys
    import os.path
    import html
    TABLE.update({
        len: b_len, isinstance: b_isinstance, callable: b_callable, hasattr: b_hasattr, getattr: b_getattr,
        setattr: b_setattr, int: b_int, bool: b_bool, chr: b_chr, ord: b_ord, list: b_list, tuple: b_tuple, set: b_set,
        frozenset: b_set, dict: b_dict, sorted: b_sorted, reversed: b_reversed, enumerate: b_enumerate, zip: b_zip,
        range: b_range, max: b_minmax('max'), min: b_minmax('min'), sum: b_sum, any: b_anyall('any'),
        all: b_anyall('all'), type: b_type, print: b_print, repr: b_repr, str: b_str, iter: b_iter, map: b_map,
        filter: b_filter, sys.exc_info: b_exc_info, format: b_format, abs: b_abs, id: b_id,
        posixpath.basename: basename, os.path.basename: basename, json.dumps: json_dumps, issubclass: b_issubclass,
        re.sub: re_fn('sub'), re.match: re_fn('match'), re.search: re_fn('search'), re.split: re_fn('split'),
        re.findall: re_fn('findall'), re.finditer: re_fn('finditer'), re.fullmatch: re_fn('fullmatch'),
        re.subn: re_fn('subn'), re.compile: re_compile, re.escape: re_escape,
        html.escape: None,
    })
    TABLE.pop(html.escape)


def lookup(f):
    if not TABLE:
        register()
    try:
        return TABLE.get(f)
    except TypeError:
        return None
