"""Symbolic values of the verifier: string ropes, heap objects, lists, dicts."""
import z3

from . import automata as A


class Unsupported(Exception):
    """construct outside the verified subset: the obligation is undecided"""


class PathEnd(Exception):
    """this path is finished (infeasible, or end of a loop body)"""


class TExc(Exception):
    """an exception of the program under verification"""

    def __init__(self, value, cls):
        super().__init__(cls.__name__)
        self.value = value      # Obj or real exception
        self.cls = cls
        self.cause_line = None


class Atom:
    """an unknown string. origin says how it is made, lang over-approximates its values."""
    __slots__ = ('rid', 'name', 'lang', 'origin', 'tags', '_len', 'alias')

    def __init__(self, name, lang=A.ALL, origin=None, tags=()):
        self.rid = None
        self.name = name
        self.lang = lang
        self.origin = origin or ('free',)
        self.tags = frozenset(tags)
        self._len = None
        self.alias = None

    def __repr__(self):
        return f'<{self.name}>'


class S:
    """string rope: tuple of non-empty str literals and Atoms, at least one Atom"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'S[' + ' + '.join(repr(p) for p in self.parts) + ']'


def rope(*parts):
    out = []
    for p in parts:
        if isinstance(p, S):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            elif isinstance(q, Atom):
                if q.lang == A.EPS:
                    continue
            else:
                raise Unsupported(f'rope part {q!r}')
            out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return S(tuple(out))


def is_str(v):
    return isinstance(v, (str, S))


def parts_of(v):
    return (v,) if isinstance(v, str) and v else () if isinstance(v, str) else v.parts


def atom_of(v):
    """the atom if v is exactly one atom"""
    if isinstance(v, S) and len(v.parts) == 1:
        return v.parts[0]
    return None


def key_of(v):
    """structural identity of a rope or other value (hashable)"""
    if isinstance(v, S):
        return ('S',) + tuple(p if isinstance(p, str) else ('a', p.rid) for p in v.parts)
    if isinstance(v, (SI, SB)):
        return ('z', v.e.get_id(), str(v.e))
    if isinstance(v, (Obj, SList, SDict, Opaque)):
        return ('o', v.rid)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key_of(x) for x in v)
    try:
        hash(v)
        return (type(v).__name__, v)
    except TypeError:
        return ('id', id(v))


class SI:
    """symbolic int"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'SI({self.e})'


class SB:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'SB({self.e})'


class Obj:
    """heap object of a real class; fields may be produced lazily by `lazy(path, obj, name)`"""
    __slots__ = ('rid', 'cls', 'fields', 'lazy', 'meta', 'name')

    def __init__(self, cls, fields=None, lazy=None, meta=None, name=''):
        self.rid = None
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.lazy = lazy
        self.meta = meta or {}
        self.name = name

    def __repr__(self):
        return f'<{self.cls.__name__}#{self.rid} {self.name}>'


class Seg:
    """unknown number of elements.  kind: 'src' (elem(path, idx) gives an arbitrary element) or
    'loop' (the items appended by an iteration of a loop, alts = list of recorded alternatives)."""
    __slots__ = ('kind', 'elem', 'origin', 'alts', 'src', 'name', 'mark', 'nonempty', 'n')

    def __init__(self, kind, elem=None, origin=None, alts=None, src=None, name='', mark=0, nonempty=False):
        self.kind = kind
        self.elem = elem
        self.origin = origin
        self.alts = alts
        self.src = src
        self.name = name
        self.mark = mark
        self.nonempty = nonempty
        self.n = None       # (path, number of elements)

    def __repr__(self):
        return f'Seg({self.kind} {self.name})'


class SList:
    __slots__ = ('rid', 'items', 'kind', 'meta')

    def __init__(self, items=(), kind='list', meta=None):
        self.rid = None
        self.items = list(items)
        self.kind = kind
        self.meta = meta or {}

    def __repr__(self):
        return f'{self.kind}{self.items!r}'

    @property
    def concrete(self):
        return not any(isinstance(i, Seg) for i in self.items)


class SDict:
    """dict: concrete keys (d) and optionally an unknown rest (sym = spec object)"""
    __slots__ = ('rid', 'd', 'sym', 'meta')

    def __init__(self, d=None, sym=None, meta=None):
        self.rid = None
        self.d = dict(d or {})
        self.sym = sym
        self.meta = meta or {}

    def __repr__(self):
        return f'dict{self.d!r}{"+sym" if self.sym else ""}'


class Opaque:
    """a value nothing is known about except what its spec object says"""
    __slots__ = ('rid', 'name', 'spec')

    def __init__(self, name, spec=None):
        self.rid = None
        self.name = name
        self.spec = spec

    def __repr__(self):
        return f'<?{self.name}>'


class Func:
    """interpreted function (real function object, or closure created by interpreted code)"""
    __slots__ = ('node', 'globals', 'closure', 'name', 'qualname', 'defaults', 'kwdefaults', 'real', 'owner')

    def __init__(self, node, globals_, closure, name, qualname, defaults, kwdefaults, real=None, owner=None):
        self.node = node
        self.globals = globals_
        self.closure = closure
        self.name = name
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.real = real
        self.owner = owner

    def __repr__(self):
        return f'<func {self.qualname}>'


class Bound:
    __slots__ = ('self', 'func')

    def __init__(self, self_, func):
        self.self = self_
        self.func = func

    def __repr__(self):
        return f'<bound {self.func!r} of {self.self!r}>'


class Builtin:
    """method of a modelled value: fn(interp, path, *args, **kw)"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class Pending:
    """a havocked variable: the case distinction on its kind is made when it is read"""
    __slots__ = ('kinds', 'old')

    def __init__(self, kinds, old):
        self.kinds = kinds
        self.old = old


class Gen:
    """generator expression: evaluated when consumed"""
    __slots__ = ('node', 'frame')

    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


def zint(v):
    if isinstance(v, SI):
        return v.e
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    raise Unsupported(f'not an int: {v!r}')


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SI(e)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SB(e)
