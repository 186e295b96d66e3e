"""Loops: an arbitrary iteration from a havocked state, and the exit from a havocked state.

What an iteration writes is found by a fixpoint: the iteration is explored again until the set of havocked
locations (and the way in which they change) is stable.  Strings that only grow are kept as
`old + acc`, lists that only grow as `old items + Seg`; everything else becomes an arbitrary value
of the kinds that were written.
"""
import z3

from . import automata as A
from .values import *  # noqa
from .values import S, SB, SI, Atom, Gen, Obj, Opaque, PathEnd, Pending, SDict, Seg, SList, Unsupported, is_str, key_of, parts_of, rope


class LoopInfo:
    def __init__(self):
        self.havoc = {}     # location -> template (the ones in force during this round)
        self.next = {}      # location -> template of the next round
        self.alts = {}      # location -> list of alternatives
        self.dirty = False
        self.each = self.next_each = False      # the items of the list are changed


def clone(path, v, mark, memo):
    """value recorded on another path -> fresh copy on this path (registry numbers below mark are shared)"""
    if isinstance(v, S):
        return rope(*[x if isinstance(x, str) else S((clone_atom(path, x, mark, memo),)) for x in v.parts])
    if isinstance(v, tuple):
        return tuple(clone(path, x, mark, memo) for x in v)
    if isinstance(v, (SI, SB)):
        e = v.e
        subs = []
        for d in z3_consts(e):
            n = d.decl().name()
            if int(n.rsplit('!', 1)[1]) >= mark:
                k = ('z', n)
                if k not in memo:
                    memo[k] = path.int(n.rsplit('!', 1)[0]).e if z3.is_int(d) else path.bool(n.rsplit('!', 1)[0]).e
                subs.append((d, memo[k]))
        return type(v)(z3.substitute(e, *subs) if subs else e)
    if isinstance(v, SList):
        if v.rid is not None and v.rid < mark:
            return path.reg[v.rid]
        return path.slist([clone(path, x, mark, memo) for x in v.items], v.kind, {'real': v.meta['real']} if 'real' in v.meta else None)
    if isinstance(v, Obj):
        if v.rid < mark:
            return path.reg[v.rid]
        k = ('o', v.rid)
        if k not in memo:
            o = memo[k] = path.obj(v.cls, {}, v.lazy, dict(v.meta), v.name)
            o.fields.update({n: clone(path, x, mark, memo) for n, x in v.fields.items()})
        return memo[k]
    if isinstance(v, SDict):
        if v.rid < mark:
            return path.reg[v.rid]
        return path.sdict({k: clone(path, x, mark, memo) for k, x in v.d.items()}, v.sym, v.meta)
    if isinstance(v, Seg):
        # another list with unknown length
        k = ('s', id(v))
        if k not in memo:
            x = memo[k] = Seg(v.kind, v.elem, v.origin, v.alts, v.src, v.name, v.mark, v.nonempty)
            memo[('ref', k)] = v
            if v.n is not None:
                x.n = (path, clone(path, v.n[1], mark, memo))
        return memo[k]
    return v


def z3_consts(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def clone_atom(path, a, mark, memo):
    if a.rid < mark and a.rid < len(path.reg) and path.reg[a.rid] is not None:
        return path.reg[a.rid]
    k = ('a', a.rid)
    if k not in memo:
        org = a.origin
        new = Atom(a.name, a.lang, org, a.tags)
        path.new(new)
        memo[k] = new
        new.origin = tuple(clone(path, x, mark, memo) if isinstance(x, (S, SI, SB, Obj)) else x for x in org)
    return memo[k]


def loop(interp, label, body, kind='', source=None, elem=None):
    """explores one arbitrary iteration (ends the path) or returns after the loop.
    elem: (item of the iteration, function that replaces the items that the loop has changed)"""
    p = interp.path
    key = (p.prefix(), label)
    info = p.ex.loops.get(key)
    if info is None:
        info = p.ex.loops[key] = LoopInfo()
    mark = len(p.reg)
    before = {}

    def redo():
        d = info.dirty
        info.dirty = False
        if d:
            info.each = info.next_each
            info.havoc = {k: t.copy() for k, t in info.next.items()}
            pre = key[0] + (0,)
            for k in [k for k in p.ex.loops if k[0][:len(pre)] == pre]:
                del p.ex.loops[k]
        return d
    c = p.choose(2, f'loop {label}', redo)
    for loc in info.havoc:
        old = read(interp, loc)
        before[loc] = havoc(interp, loc, old, info, mark, source if c == 1 else None)
        if loc[0] == 'l' and source is not None and c == 1:
            before[loc][1][-1].src = ('map', source)
    if c == 1:
        if info.each:
            elem[1](Seg('loop', alts=info.alts.setdefault(EACH, []), name='each', mark=mark))
        return info
    logmark = len(p.log)
    consmark = len(p.cons)
    saved = p.extra.get('inloop', 0)
    p.extra['inloop'] = saved + 1
    body()
    p.extra['inloop'] = saved
    h = interp.hooks.get('iteration')
    if h:
        new = {loc[1]: [] for loc in info.havoc if loc[0] == 'l'}
        grown = set()
        for ent in p.log[logmark:]:
            if ent[0] == 'l' and ent[1].rid < mark and ent[1].rid not in grown:
                grown.add(ent[1].rid)
                new[ent[1].rid] = ent[1].items[len(ent[3] or ()):]
        p.extra['loop_new'] = new
        p.extra['loop_log'] = logmark
        p.extra['loop_app'] = [(info.alts[loc], hv, suffix_after(hv, read(interp, loc))) for loc, (_old, hv) in before.items()
                               if loc[0] != 'l' and info.havoc[loc].mode == 'append' and is_str(read(interp, loc))]
        h(interp)
    # end of the iteration
    seen = set()
    for ent in p.log[logmark:]:
        loc = loc_of(ent, mark, interp)
        if loc is None or loc in before or loc in seen:
            continue
        seen.add(loc)
        # a location of the state before the loop that is not havocked yet
        if loc not in info.next:
            first = first_value(ent)
            cur = read(interp, loc)
            if ent[0] in ('l', 'd', 'r') or not same(first, cur):
                info.next[loc] = Template('inv', []) if invariant(p, loc) else template(first, cur, ent)
                info.dirty = True
        else:
            merge(info, info.next[loc], ent, read(interp, loc))
    for loc, (old, hv) in before.items():
        if loc[0] == 'r':
            continue
        if loc[0] == 'd':
            for ent in p.log[logmark:]:
                if ent[0] == 'd' and ent[1].rid == loc[1]:
                    if len(ent) < 6:
                        raise Unsupported('a dict entry is removed in a loop')
                    add_alt(info, loc, (ent[4], ent[5]))
            continue
        cur = read(interp, loc)
        check(info, loc, hv, cur, interp, p.cons[consmark:] if interp.hooks.get('facts') else ())
    if elem is not None:
        e = elem[0]()
        if isinstance(e, SList) and e.meta.get('clone'):
            if not info.next_each and any(ent[0] == 'l' and ent[1] is e for ent in p.log[logmark:]):
                info.next_each = info.dirty = True
            if info.each:
                add_alt(info, EACH, (e,), p.cons[consmark:] if interp.hooks.get('facts') else ())
    raise PathEnd()


EACH = ('each', None, None)


def loc_of(ent, mark, interp):
    if ent[0] == 'v':
        if ent[1].mark >= mark:
            return None
        return ('v', ent[1].fid, ent[2])
    if ent[0] in ('f', 'l', 'd', 'r'):
        if ent[1].rid >= mark:
            return None
        return (ent[0], ent[1].rid, ent[2])
    raise Unsupported(f'write {ent}')


def mark_frames(interp, mark):
    return mark


def invariant(p, loc):
    """(make, holds) of a field with a stated invariant"""
    if loc[0] != 'f':
        return None
    return p.reg[loc[1]].meta.get('invariants', {}).get(loc[2])


def first_value(ent):
    return ent[3]


def read(interp, loc):
    from .interp import MISSING
    k, i, n = loc
    if k == 'r':
        return None
    if k == 'v':
        return interp.all_frames[i].locals.get(n, MISSING)
    o = interp.path.reg[i]
    if k == 'f':
        return o.fields.get(n, MISSING)
    if k == 'l':
        return list(o.items)
    return dict(o.d)


def write(interp, loc, v):
    from .interp import MISSING
    k, i, n = loc
    if k == 'v':
        fr = interp.all_frames[i]
        if v is MISSING:
            fr.locals.pop(n, None)
        else:
            fr.locals[n] = v
        interp.path.log.append(('v', fr, n, MISSING))
    elif k == 'f':
        o = interp.path.reg[i]
        interp.path.log.append(('f', o, n, o.fields.get(n, MISSING)))
        o.fields[n] = v
    elif k == 'l':
        o = interp.path.reg[i]
        interp.path.log.append(('l', o, None, list(o.items)))
        o.items[:] = v
    else:
        raise Unsupported('havoc of a dict')


def same(a, b):
    if isinstance(a, Pending) or isinstance(b, Pending):
        return a is b
    return type(a) is type(b) and key_of(a) == key_of(b)


def kinds_of(v):
    return list(v.kinds) if isinstance(v, Pending) else [kind_of(v)]


def kind_of(v):
    from .interp import MISSING
    if v is MISSING:
        return 'missing'
    if v is None:
        return 'none'
    if isinstance(v, (bool, SB)):
        return 'bool'
    if isinstance(v, (int, SI)):
        return 'int'
    if is_str(v):
        return 'str'
    if isinstance(v, Obj):
        return ('obj', v.meta.get('fresh'), v.cls)
    if isinstance(v, SList):
        return 'list'
    return ('other', key_of(v))


class Template:
    def __init__(self, mode, kinds):
        self.mode = mode        # append / kinds / items
        self.kinds = kinds
        self.lists = []

    def copy(self):
        return Template(self.mode, list(self.kinds))


def template(first, cur, ent):
    if ent[0] == 'r':
        return Template('refresh', [])
    if ent[0] == 'l':
        return Template('items', [])
    if ent[0] == 'd':
        return Template('dict', [])
    ks = kinds_of(first) + kinds_of(cur)
    if ks == ['str', 'str'] and is_prefix(first, cur):
        return Template('append', ['str'])
    return Template('kinds', list(dict.fromkeys(ks)))


def is_prefix(a, b):
    return suffix_after(a, b) is not None


def suffix_after(a, b):
    """b = a + result"""
    pa, pb = list(parts_of(a)), list(parts_of(b))
    i = 0
    while i < len(pa):
        x, y = pa[i], pb[i] if i < len(pb) else None
        if y is None and isinstance(x, str):
            return None
        if isinstance(x, str) and isinstance(y, str):
            if x == y:
                pass
            elif i == len(pa) - 1 and y.startswith(x):
                pb[i] = y[len(x):]
                return rope(*pb[i:])
            else:
                return None
        elif x is not y:
            if isinstance(x, str) or not x.lang <= A.EPS:
                return None
            pb.insert(i, x)     # known to be empty, left out
        i += 1
    return rope(*pb[i:])


def havoc(interp, loc, old, info, mark, source=None):
    p = interp.path
    t = info.havoc[loc]
    if t.mode == 'refresh':
        o = p.reg[loc[1]]
        p.log.append(('r', o, None, None))
        o.meta['refresh'](p, o)
        return None, None
    if t.mode == 'dict':
        o = p.reg[loc[1]]
        p.log.append(('d', o, None, None, None, None))
        o.sym = LoopDict(dict(o.d), o.sym, info.alts.setdefault(loc, []), mark)
        o.d = {}
        o.meta['gen'] = o.meta.get('gen', 0) + 1
        return old, None
    if t.mode == 'inv':
        from . import models
        hv = models.outlives(p, p.reg[loc[1]], loc[2], invariant(p, loc)[0](p))
    elif t.mode == 'append':
        alts = info.alts.setdefault(loc, [])
        a = p.new(Atom('acc', A.ALL, ('acc', alts, source)))
        hv = rope(old, S((a,)))
    elif t.mode == 'items':
        alts = info.alts.setdefault(loc, [])
        seg = Seg('loop', alts=alts, name='acc', mark=mark)
        hv = list(old) + [seg]
    else:
        ks = t.kinds
        # the value of a variable that cannot be generalised may not be needed
        hv = Pending(list(ks), old) if len(ks) > 1 or ks[0] == 'list' or isinstance(ks[0], tuple) and ks[0][0] == 'obj' and ks[0][1] is None else fresh(interp, ks[0], old)
    write(interp, loc, hv)
    return old, hv


def resolve(interp, v):
    k = v.kinds[interp.path.choose(len(v.kinds), 'havoc')] if len(v.kinds) > 1 else v.kinds[0]
    return fresh(interp, k, v.old)


class LoopDict:
    """a dict after an unknown number of iterations: old entries, or entries written by an iteration"""

    def __init__(self, base, bsym, alts, mark):
        self.base, self.bsym, self.alts, self.mark = base, bsym, alts, mark

    def has(self, interp, p, d, k):
        from .models import symbolic
        if not symbolic(k) and k in self.base:
            return True
        if not self.alts and self.bsym is None and not symbolic(k):
            return False
        return None

    def pick(self, interp, p, d, k=None):
        from . import models
        opts = [('b', x, v) for x, v in self.base.items()]
        opts += [('a', x, v) for x, v in self.alts]
        if self.bsym is not None:
            opts.append(('s', None, None))
        if k is not None:
            opts = [o for o in opts if o[0] == 's' or may_equal(o[1], k)]
        if not opts:
            raise PathEnd()
        t, x, v = opts[p.choose(len(opts), 'loop dict')]
        if t == 's':
            x = self.bsym.key(interp, p, d) if k is None else k
            return x, self.bsym.value(interp, p, d, x)
        if t == 'a':
            memo = {}
            x, v = clone(p, x, self.mark, memo), clone(p, v, self.mark, memo)
        return x, v

    def key(self, interp, p, d):
        x, v = self.pick(interp, p, d)
        p.memo[('dval', d.rid, repr(key_of(x)), d.meta.get('gen', 0))] = v
        return x

    def value(self, interp, p, d, k):
        return self.pick(interp, p, d, k)[1]


def may_equal(a, b):
    from .explore import lang_of
    if is_str(a) and is_str(b):
        return not (lang_of(a) & lang_of(b)).empty()
    if isinstance(a, (int, SI)) and isinstance(b, (int, SI)):
        return not (isinstance(a, int) and isinstance(b, int) and a != b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(may_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (S, SI)) or isinstance(b, (S, SI)):
        return is_str(a) == is_str(b)
    return a == b


def fresh(interp, k, old):
    from .interp import MISSING
    p = interp.path
    if k == 'missing':
        return MISSING
    if k == 'none':
        return None
    if k == 'bool':
        return p.bool('hb')
    if k == 'int':
        return p.int('hi')
    if k == 'str':
        return p.atom('hs')
    if isinstance(k, tuple) and k[0] == 'obj':
        if k[1] is None:
            raise Unsupported(f'an object of {k[2].__name__} is assigned in a loop')
        return k[1](p)
    if k == 'list':
        raise Unsupported('a list is assigned in a loop')
    if k[0] == 'other':
        if kind_of(old) == k or k[1] == ('str', old):
            return old
    raise Unsupported(f'a value {k} is assigned in a loop')


def merge(info, t, ent, cur):
    """another path of the same round changes the location: the template must cover it, too"""
    if t.mode in ('items', 'dict', 'refresh', 'inv'):
        return
    first = first_value(ent)
    if t.mode == 'append':
        if is_str(first) and is_str(cur) and is_prefix(first, cur):
            return
        t.mode, t.kinds = 'kinds', ['str']
        info.dirty = True
    for k in kinds_of(first) + kinds_of(cur):
        if k not in t.kinds:
            t.kinds.append(k)
            info.dirty = True


def check(info, loc, hv, cur, interp, cons=()):
    t = info.next[loc]
    if loc in info.havoc and info.havoc[loc].mode != t.mode:
        return      # another round follows
    if t.mode == 'inv':
        if not invariant(interp.path, loc)[1](cur):
            raise Unsupported(f'invariant of {loc[2]}')
    elif t.mode == 'append':
        if not is_str(cur):
            t.mode, t.kinds = 'kinds', ['str'] + kinds_of(cur)
            info.dirty = True
            return
        s = suffix_after(hv, cur)
        if s is None:
            t.mode, t.kinds = 'kinds', ['str']
            info.dirty = True
            return
        add_alt(info, loc, s)
    elif t.mode == 'items':
        n = len(hv)
        if len(cur) < n or any(x is not y for x, y in zip(hv, cur)):
            raise Unsupported('a list is changed in a loop')
        add_alt(info, loc, tuple(cur[n:]), cons)
    else:
        for k in kinds_of(cur):
            if k not in t.kinds:
                if isinstance(k, tuple) and k[0] == 'other' and same(hv, cur):
                    return
                t.kinds.append(k)
                info.dirty = True


class Alt(tuple):
    """items that an iteration has appended, and what was known of their numbers"""
    cons = ()


def add_alt(info, loc, v, cons=()):
    if cons and isinstance(v, tuple):
        v = Alt(v)
        v.cons = tuple(cons)
    info.alts.setdefault(loc, []).append(v)


# ---------------------------------------------------------------- for
def iterate(interp, it, node, fr, body):
    """runs body(x) for the items of `it`"""
    p = interp.path
    from . import models
    label = f'{getattr(node, "lineno", 0) or getattr(getattr(node, "iter", None), "lineno", 0)}:{getattr(getattr(node, "iter", None), "col_offset", 0)}'
    items = items_of(interp, it)
    h = interp.hooks.get('loop_inv')
    if h and h(interp, it, items, node, fr, body):
        return
    for n, x in enumerate(items):
        if isinstance(x, Seg):
            cur = [None]

            def one(x=x, cur=cur):
                e = cur[0] = seg_elem(interp, x)
                changeable = isinstance(e, SList) and e.meta.get('clone') and isinstance(it, SList) and any(y is x for y in it.items)
                if changeable:
                    e.meta['clone'] = 'loop'
                p.extra['elems'] = p.extra.get('elems', ()) + ((x, e),)
                at = len(p.log)
                try:
                    body(e)
                except (Exception, PathEnd) as ex:
                    if changeable and not isinstance(ex, PathEnd) and any(ent[0] == 'l' and ent[1] is e for ent in p.log[at:]):
                        raise Unsupported('a loop ends after a change of an item')
                    raise
                p.extra['elems'] = p.extra['elems'][:-1]
                p.extra['loop_elem'] = (x, e)

            def replace(new, x=x):
                for ls in p.reg:
                    if isinstance(ls, SList) and ls is not it and any(y is x or isinstance(y, Seg) and y.kind == 'loop' and y.alts is not x.alts and shares(y, x) for y in ls.items):
                        raise Unsupported('items of two lists are changed')
                new.src, new.nonempty = ('each', x), x.nonempty
                n = models.seg_len(p, x)
                new.n = (p, n)
                p.log.append(('l', it, None, list(it.items)))
                it.items[:] = [new if y is x else y for y in it.items]
            loop(interp, f'{label}#{n}', one, source=x, elem=(lambda cur=cur: cur[0], replace))
        else:
            body(x)


def shares(a, b):
    ids = {id(v) for alt in a.alts for v in alt if isinstance(v, SList)}
    return any(id(v) in ids for alt in (b.alts or ()) for v in alt)


def seg_elem(interp, seg):
    v = seg_item(interp, seg)
    for f in interp.path.extra.get('segfacts', {}).get(id(seg), ()):
        f(interp, v)
    return v


def seg_item(interp, seg):
    p = interp.path
    if seg.kind == 'src':
        return seg.elem(interp, p)
    # an item that a loop has appended
    flat = []
    for alt in seg.alts:
        flat.extend((v, getattr(alt, 'cons', ())) for v in alt)
    if not flat:
        raise PathEnd()
    i = p.choose(len(flat), f'alt {seg.name}')
    v, cons = flat[i]
    if isinstance(v, Seg):
        return seg_elem(interp, v)
    memo = {}
    v = clone(p, v, seg.mark, memo)
    if isinstance(v, SList) and v.rid >= seg.mark:
        v.meta['clone'] = True
    for c in cons:
        subs = []
        for d in z3_consts(c):
            n = d.decl().name()
            if int(n.rsplit('!', 1)[1]) >= seg.mark:
                k = ('z', n)
                if k not in memo:
                    memo[k] = p.int(n.rsplit('!', 1)[0]).e if z3.is_int(d) else p.bool(n.rsplit('!', 1)[0]).e
                subs.append((d, memo[k]))
        p.assume(z3.substitute(c, *subs) if subs else c)
    return v


def items_of(interp, it):
    from . import models
    p = interp.path
    if isinstance(it, Gen):
        it = interp.comp(it.node, it.frame)
    if isinstance(it, SList):
        return list(it.items)
    if isinstance(it, (tuple, list)):
        return list(it)
    if isinstance(it, str):
        return list(it)
    if isinstance(it, S):
        cs = A.cs_norm(A.FULL)
        return [Seg('src', elem=lambda i, p: p.atom('ch', A.chars(cs)), name='chars', src=it)]
    if isinstance(it, range):
        return list(it)
    if isinstance(it, SDict):
        return models.dict_keys(interp, it)
    if isinstance(it, Opaque) and hasattr(it.spec, 'items_of'):
        return it.spec.items_of(interp, it)
    if isinstance(it, (set, frozenset, dict)):
        return sorted(it) if isinstance(it, (set, frozenset)) else list(it)
    from types import GeneratorType
    if it is None or isinstance(it, (int, SI, bool)):
        interp.throw(TypeError, 'object is not iterable')
    raise Unsupported(f'iteration over {it!r}')


def while_loop(interp, s, fr):
    from .interp import Cont
    h = interp.hooks.get('while_inv')
    if h and h(interp, s, fr):
        return

    def body():
        if not interp.truth(interp.ev(s.test, fr)):
            raise PathEnd()
        interp.body_of(s.body, fr)
    # concrete loops are unrolled
    loop(interp, f'w{s.lineno}:{s.col_offset}', body)
    if interp.truth(interp.ev(s.test, fr)):
        raise PathEnd()
