"""Concrete values for symbolic strings: decides whether two values that are not the same term can really differ."""
import random

import z3

from .explore import word_of
from .values import Atom, Obj, S, SB, SDict, SI, SList, Unsupported, key_of, is_str

POOL = '=="\'\'  \n<>&abABZ10-x|*#~{}[]/:.\t'


class NoValue(Exception):
    pass


def walk(L, rng, maxlen=14):
    """a random word of the language, or None"""
    live = L.live()
    if 0 not in live:
        return None
    s, w = 0, ''
    best = None
    stop = rng.choice((0, 1, 2, 4, 8, maxlen))
    for n in range(maxlen * 3):
        if s in L.acc:
            best = w
            if n >= stop:
                return w
        opts = [t for t in L.trans[s] if t[2] in live]
        if not opts:
            return best
        c = None
        for _ in range(6):
            x = ord(rng.choice(POOL))
            for lo, hi, t in opts:
                if lo <= x <= hi:
                    c, s2 = x, t
                    break
            if c is not None:
                break
        if c is None:
            lo, hi, s2 = rng.choice(opts)
            c = lo if lo >= 32 else min(hi, max(lo, 97))
            if 0xD800 <= c <= 0xDFFF:
                c = lo
        w += chr(c)
        s = s2
    return best


class Env:
    def __init__(self, path, rng, free=(), words=()):
        self.free = free
        self.words = words
        self.path = path
        self.rng = rng
        self.val = {}
        self.bits = sorted({x for a in path.reg if isinstance(a, Atom) and a.origin[0] in OPS and a.origin[0] != 're.sub' for x in a.origin[1:] if isinstance(x, str) and x})
        self.bits += sorted({c for b in self.bits for c in b})
        self.long = max((n for a in path.reg if isinstance(a, Atom) and a.origin[0] in OPS for n in a.origin[1:] if isinstance(n, int) and not isinstance(n, bool) and 4 < n < 100000), default=0)

    def atom(self, a):
        if a.rid in self.val:
            return self.val[a.rid]
        v = None if a.rid in self.free else self.compute(a)
        if v is None:
            if self.bits and self.rng.random() < .5:
                v = ''.join(self.rng.choice(self.bits) if self.rng.random() < .7 else self.rng.choice(POOL) for _ in range(self.rng.randrange(5)))
                if not a.lang.has(v):
                    v = None
            if self.words and self.rng.random() < .7:
                v = self.rng.choice(self.words)
                if not a.lang.has(v):
                    v = None
            if v is None and self.long and self.rng.random() < .2:
                v = ''.join(self.rng.choice('abc') for _ in range(self.long + 2))
                if not a.lang.has(v):
                    v = None
            if v is None:
                v = walk(a.lang, self.rng)
            if v is None:
                raise NoValue()
        elif not a.lang.has(v):
            raise NoValue()     # not a value of this path
        self.val[a.rid] = v
        return v

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Atom):
            return self.atom(v)
        if isinstance(v, SI):
            return self.value(v)
        if isinstance(v, S):
            return ''.join(x if isinstance(x, str) else self.atom(x) for x in v.parts)
        if v is None or isinstance(v, int):
            return v
        raise NoValue()

    def compute(self, a):
        o = a.origin
        op = o[0]
        f = OPS.get(op)
        if f is None:
            if op in BASE:
                return None
            raise Unsupported(f'value of {op}')
        args = [self.text(x) for x in o[1:]]
        try:
            r = f(*args)
        except Exception:
            raise NoValue()
        return r

    def value(self, v):
        if is_str(v):
            return self.text(v)
        if isinstance(v, SI):
            w = self.path.extra.get('intof', {}).get(str(v.e))
            if w is None:
                raise Unsupported('value of an int')
            try:
                return int(self.text(w[0]), *w[1])
            except ValueError:
                raise NoValue()
        if v is None or isinstance(v, (bool, int)):
            return v
        raise Unsupported('value')


BASE = {'free', 'sofar', 'group', 'match', 'content', 'attr', 'kind', 'macro_name', 'macro_args', 'shlex', 'rep', 'line', 'part', 'data'}
OPS = {
    'before': lambda s, sep: s.split(sep, 1)[0],
    'after': lambda s, sep: s.split(sep, 1)[1],
    'rbefore': lambda s, sep: s.rsplit(sep, 1)[0],
    'rafter': lambda s, sep: s.rsplit(sep, 1)[1],
    'lstrip': lambda s, c: s.lstrip(c),
    'rstrip': lambda s, c: s.rstrip(c),
    'replace': lambda s, old, new, n: s.replace(old, new, n),
    'upper': lambda s: s.upper(), 'lower': lambda s: s.lower(), 'title': lambda s: s.title(), 'capitalize': lambda s: s.capitalize(),
    'first': lambda s: s[0], 'last': lambda s: s[-1], 'char': lambda s, i: s[i],
    'drop': lambda s, n: s[n:], 'dropend': lambda s, n: s[:len(s) - n], 'take': lambda s, n: s[:n], 'takeend': lambda s, n: s[len(s) - n:],
    'chr': chr, 'basename': lambda s: s[s.rfind('/') + 1:],
    'slice': lambda s, a, b: s[a:b], 'reversed': lambda s: s[::-1],
    're.sub': lambda pat, fl, repl, s: __import__('re').compile(pat, fl).sub(repl, s),
}


def differ(path, a, b, tries=400, seed=1, view=lambda x: x, free=()):
    """a text that describes a state in which a and b have different values; '' if none was found, None if that is unknown"""
    rng = random.Random(seed)
    good = 0
    for _ in range(tries):
        e = Env(path, rng, free)
        try:
            # values of derived strings that the path condition restricts must fit
            x, y = e.value(a), e.value(b)
            for r in path.reg:
                if isinstance(r, Atom) and r.rid not in e.val and r.origin[0] in OPS:
                    if all(q.rid in e.val for arg in r.origin[1:] if isinstance(arg, S) for q in arg.parts if not isinstance(q, str)):
                        e.atom(r)
        except NoValue:
            continue
        except Unsupported:
            return None
        good += 1
        if type(x) is not type(y) or view(x) != view(y):
            return f'{x!r} instead of {y!r} with {dict((path.reg[k].name, v) for k, v in e.val.items())}'
    return '' if good else None


def violated(path, test, values, tries=400, seed=1, words=()):
    """a text that describes a state in which test(*values) is false, '' or None"""
    rng = random.Random(seed)
    good = 0
    for _ in range(tries):
        e = Env(path, rng, words=words)
        try:
            vs = [e.value(v) for v in values]
            for r in path.reg:
                if isinstance(r, Atom) and r.rid not in e.val and r.origin[0] in OPS:
                    if all(q.rid in e.val for arg in r.origin[1:] if isinstance(arg, S) for q in arg.parts if not isinstance(q, str)):
                        e.atom(r)
        except NoValue:
            continue
        except Unsupported:
            return None
        good += 1
        if not test(*vs):
            return f'{[v if len(str(v)) < 200 else str(v)[:200] + "..." for v in vs]} with {dict((path.reg[k].name, v[:200]) for k, v in e.val.items())}'
    return '' if good else None


def same(path, a, b):
    """-> (True, '') / (False, why) / (None, why)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False, f'{a!r} instead of {b!r}'
        for x, y in zip(a, b):
            r = same(path, x, y)
            if r[0] is not True:
                return r
        return True, ''
    if key_of(a) == key_of(b):
        return True, ''
    if is_str(a) and is_str(b):
        wa, wb = word_of(a), word_of(b)
        if wa is not None and wb is not None:
            return (True, '') if wa == wb else (False, f'{a!r} instead of {b!r}')
    if isinstance(a, (SI, SB)) or isinstance(b, (SI, SB)):
        if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and isinstance(a, bool) == isinstance(b, bool):
            ea, eb = (x.e if isinstance(x, SI) else z3.IntVal(x) for x in (a, b))
            if path.entails(ea == eb):
                return True, ''
        elif not (isinstance(a, (SI, int)) and isinstance(b, (SI, int))):
            return False, f'{a!r} instead of {b!r}'
    conc = (str, int, type(None), bool)
    if (a is None) != (b is None) and isinstance(b if a is None else a, (str, int, bool, S, SI, SB, Obj, SList, SDict)):
        return False, f'{a!r} instead of {b!r}'
    if isinstance(a, conc) and isinstance(b, conc):
        return False, f'{a!r} instead of {b!r}'
    if is_str(a) != is_str(b) and isinstance(a, conc + (S, SI)) and isinstance(b, conc + (S, SI)):
        return False, f'{a!r} instead of {b!r}'
    try:
        d = differ(path, a, b)
    except Unsupported as e:
        return None, str(e)
    if d:
        return False, d
    return None, f'{a!r} instead of {b!r} (no different values found)'
