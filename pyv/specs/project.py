"""Projections of texts: a text without the characters of a set D (whitespace; for some properties also backslash).

keep(p, v, D) is the sequence of the pieces of v that can hold other characters; steps that are known to change D only
(strip, split and join at D, replacements of D by D, a pass of a pattern whose matches have an obligation of their own)
are seen through."""
from .. import automata as A
from .. import transduce
from ..concrete import OPS, differ
from ..explore import lang_of
from ..values import S, Atom, Seg, Unsupported, atom_of, is_str, parts_of, rope


NOTHING = A.cs_norm([])


def whites():
    return A.SPACE


def star(D):
    return A.chars_star(D)


def inside(chars, D):
    """a text with characters of D only"""
    return isinstance(chars, str) and star(D).has(chars)


def strip_chars(chars, D):
    return (chars is None and A.chars_star(A.SPACE) <= star(D)) or inside(chars, D)


def drop(text, D):
    L = A.chars(D)
    return ''.join(c for c in text if not L.has(c))


REG = None      # id(list of the appended texts of a loop) -> (the list, [every iteration keeps its piece])


def pieces_hook(D):
    """'iteration' hook: a loop over pieces of a text keeps each piece apart from characters of D"""
    global REG
    REG = {}

    def hook(interp):
        p = interp.path
        if 'loop_elem' not in p.extra:
            return
        e = p.extra['loop_elem'][1]
        if not is_str(e):
            return
        for rid, items in (p.extra.get('loop_new') or {}).items():
            segs = [x for x in p.reg[rid].items if isinstance(x, Seg) and x.kind == 'loop']
            if not segs:
                continue
            items = [x for x in items if x is not segs[-1]]
            if any(not is_str(x) for x in items):
                ok = False
            elif not items:
                ok = lang_of(e) <= star(D)
            else:
                ok = keep(rope(*items), D) == keep(e, D)
            REG.setdefault(id(segs[-1].alts), (segs[-1].alts, []))[1].append(ok)
    return hook


def source(seg, sep, D):
    """the text that the segment's elements are the pieces of, or None"""
    src = seg.src
    while isinstance(src, tuple) and src[0] == 'map':
        if REG is not None:
            c = REG.get(id(seg.alts))
            if c is None or not all(c[1]):
                return None
        seg = src[1]
        src = seg.src
    if isinstance(src, tuple) and src[0] == 'split' and src[3] == -1:
        if src[2] is None and A.chars_star(A.SPACE) <= star(D) or inside(src[2], D):
            return src[1]
    if isinstance(src, tuple) and src[0] == 'splitlines':
        return src[1]
    if seg.name == 'chars' and isinstance(src, S):
        return src
    return None


ESC = False     # escaping with references of HTML keeps a text
ENDS = False    # only the ends of a text may change
REFS = {'&': ('&amp;',), '<': ('&lt;',), '>': ('&gt;',), '"': ('&quot;', '&#34;', '&#x22;'), "'": ('&#39;', '&#x27;', '&apos;')}
_escapes = {}


def escaped(a):
    """the text whose characters are replaced by references, or None"""
    chain = []
    t = a
    while t.origin[0] == 'replace' and isinstance(t.origin[2], str) and t.origin[3] in REFS.get(t.origin[2], ()) and t.origin[4] == -1:
        chain.insert(0, t.origin[2:4])
        v = t.origin[1]
        t = atom_of(v)
        if t is None:
            break
    if not chain:
        return None
    k = tuple(chain)
    if k not in _escapes:
        chars = sorted({x for x, _ in chain} | {transduce.OTHER})
        _escapes[k] = transduce.equal([transduce.replace(*x) for x in chain], [transduce.Hom(dict(chain))], chars) == ''
    return v if _escapes[k] else None


def under(a, D):
    """the text an atom is made of by changes of D only, or None"""
    o = a.origin
    if ESC and o[0] == 'replace':
        u = escaped(a)
        if u is not None:
            return u
    if o[0] in ('lstrip', 'rstrip') and strip_chars(o[2], D):
        return o[1]
    if ENDS:
        return None
    if o[0] == 'replace' and inside(o[2], D) and inside(o[3], D):
        return o[1]
    if o[0] == 're.sub' and inside(o[3], D):
        try:
            if A.regex(o[1], o[2]) <= star(D):
                return o[4]
        except Unsupported:
            return None
    if o[0] == 'resub':
        return o[2]
    if o[0] == 'strip_html' and star(whites()) <= star(D):
        return o[1]
    if o[0] in ('join',) and isinstance(o[1], str) and inside(o[1], D):
        return source(o[2], o[1], D)
    return None


def kept(seg):
    """the segment that this one takes each text of, at most without the blank ones"""
    while REG is not None and seg.kind == 'loop' and isinstance(seg.src, tuple) and seg.src[0] == 'map' and isinstance(seg.src[1], Seg) and seg.src[1].kind == 'loop':
        c = REG.get(id(seg.alts))
        if c is None or not all(c[1]):
            break
        seg = seg.src[1]
    return seg


def children(a, D):
    """the node of which the atom is the concatenation of the emissions of all children, each once and in order (texts of
    D may come between them), or None"""
    o = a.origin
    if o[0] == 'join' and (inside(o[1], D) or ENDS and isinstance(o[1], str)):
        seg = kept(o[2])
        if seg.kind != 'loop' or not (isinstance(seg.src, tuple) and seg.src[0] == 'map'):
            return None
        source, alts = seg.src[1], [rope(*alt) if all(is_str(y) for y in alt) else None for alt in seg.alts]
    elif o[0] == 'acc' and len(o) > 2 and o[2] is not None:
        source, alts = o[2], o[1]
    else:
        return None
    if not (isinstance(source.src, tuple) and source.src[0] == 'children') or not alts:
        return None
    for alt in alts:
        if alt is None or not is_str(alt):
            return None
        k = keep(alt, D, lambda x: (x.rid, x.origin[0] == 'emit' and 'elem' in x.tags), False)
        if len(k) != 1 or not isinstance(k[0], tuple) or not k[0][1]:
            return None
    return source.src[1]


def part_of_children(a):
    """the atom is made from some of the children only, or from the children backwards"""
    o = a.origin
    seg = o[2] if o and o[0] == 'join' or o and o[0] == 'acc' and len(o) > 2 else None
    part = False
    while isinstance(seg, Seg) and isinstance(seg.src, tuple):
        if seg.src[0] == 'children':
            return part
        if seg.src[0] in ('slice', 'reversed'):
            part = True
        elif seg.src[0] not in ('map', 'sorted', 'set'):
            break
        seg = seg.src[1]
    return False


def incomplete(p, ks):
    """the pieces of a text hold some of the children only: one piece is made from a part of them, no other from any of them"""
    xs = [p.reg[x] for x in ks if isinstance(x, int)]
    xs = [x for x in xs if isinstance(x, Atom) and x.origin]
    part = [x for x in xs if part_of_children(x)]
    other = [x for x in xs if x not in part and x.origin[0] in ('join', 'acc', 'emit', 'resub')]
    return len(part) == 1 and not other and not any(isinstance(x, tuple) for x in ks)


def blank_tested(p, node):
    """the code has found out that the emissions of the children are whitespace, and they are not only empty"""
    for a in p.reg:
        if isinstance(a, Atom) and a.lang <= star(whites()) and not a.lang <= A.EPS and keep(S((a,)), NOTHING, skip=False) == [('children', node.rid)]:
            return True
    return False


def known_blank(p, node, D):
    """on this path the emissions of the children of node hold characters of D only"""
    ch = node.fields.get('children')
    if ch is not None and all(isinstance(x, Seg) and p.memo.get(('seg', id(x))) is False for x in ch.items):
        return True
    for a in p.reg:
        if isinstance(a, Atom) and a.lang <= star(D) and keep(S((a,)), D, skip=False) == [('children', node.rid)]:
            return True
    return False


def keep(v, D, tok=lambda x: x.rid, skip=True):
    out = []
    for x in parts_of(v):
        if isinstance(x, str):
            x = drop(x, D)
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
            continue
        if skip and x.lang <= star(D):
            continue
        u = under(x, D)
        if u is None:
            n = children(x, D)
            out.append(('children', n.rid) if n is not None else tok(x))
            continue
        for t in keep(u, D, tok, skip):
            if isinstance(t, str) and out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)
    return out


def equal(p, a, b, D=None):
    """-> (True / False / None, why): a and b are the same text apart from characters of D"""
    D = D or whites()
    if not is_str(a) or not is_str(b):
        return False, f'{a!r} instead of {b!r}'
    ka, kb = keep(a, D), keep(b, D)
    if ka == kb:
        return True, ''
    free = ()
    if len(ka) == 1 and isinstance(ka[0], int):
        # one step that is not a projection of the same text
        x = y = p.reg[ka[0]]
        while len(y.origin) > 1 and is_str(y.origin[1]) and y.origin[0] in OPS:
            base = y.origin[1]
            k = keep(base, D)
            if k == kb:
                a, b = S((x,)), base
                free = {z.rid for z in parts_of(base) if not isinstance(z, str) and z.origin[0] not in OPS}
                break
            if len(k) != 1 or not isinstance(k[0], int):
                break
            y = p.reg[k[0]]
    try:
        d = differ(p, a, b, view=lambda t: drop(t, D), free=free)
    except Unsupported as e:
        return None, f'{e}: {a!r} instead of {b!r}'
    if d:
        return False, d
    return None, f'{a!r} instead of {b!r} (no different values found)'


def iteration(interp, check):
    """the end of an iteration of a loop over the pieces of a text: check(appended text, piece)"""
    p = interp.path
    if 'loop_elem' not in p.extra:
        return
    seg, e = p.extra['loop_elem']
    if not is_str(e):
        return
    if not p.extra.get('loop_new'):
        check(None, e)
    for rid, items in p.extra['loop_new'].items():
        if any(not is_str(x) for x in items):
            continue
        check(items, e)


def separated(p, r, txt):
    """pieces of txt that whitespace separates are separated by whitespace in r (pass by pass)"""
    D = whites()
    if lang_of(txt) <= star(D):
        return True, ''
    v = r
    while True:
        if not is_str(v):
            return None, f'{v!r}'
        ps = [x for x in parts_of(v) if not (isinstance(x, str) and inside(x, D))]
        if parts_of(v) == parts_of(txt):
            return True, ''
        if len(ps) != 1 or isinstance(ps[0], str):
            return None, f'{v!r}'
        a = ps[0]
        o = a.origin
        u = under(a, D)
        if u is None:
            return None, f'{a!r}: {o[0]}'
        if o[0] in ('replace', 're.sub') and not o[3]:
            return None, f'{o[0]} by nothing'
        if o[0] == 'join' and not o[1]:
            return None, 'pieces are joined without a separator'
        v = u


def outer(v, D):
    """a text without the pieces of D at its ends"""
    ps = list(parts_of(v))
    for _ in range(2):
        while ps and (inside(ps[0], D) if isinstance(ps[0], str) else ps[0].lang <= star(D)):
            ps.pop(0)
        ps.reverse()
    return rope(*[x if isinstance(x, str) else S((x,)) for x in ps])


def tag_shape(p, whole):
    """a match is a tag: the text on both sides of it is separated by it"""
    D = whites()
    ps = list(parts_of(whole))
    while ps and not isinstance(ps[0], str) and ps[0].lang <= star(D):
        ps.pop(0)
    while ps and not isinstance(ps[-1], str) and ps[-1].lang <= star(D):
        ps.pop()
    if ps and isinstance(ps[0], str) and isinstance(ps[-1], str) and ps[0].lstrip().startswith('<') and ps[-1].rstrip().endswith('>'):
        return True, ''
    return None, f'{whole!r} is no tag'
