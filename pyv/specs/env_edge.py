"""The right edge of the creole document tree: the parser only adds text behind all text that it has added before.

`cur` is a container node on the right edge of the tree, `text` is None or the last node of the tree, a text node.  For a
handler the sequence of the added texts (in the order of the final tree) is read off the final state; the 'append' hook
checks that every node is added at the right edge."""
from creole.parser.creol2html_parser import CreoleParser
from creole.shared.document_tree import DocNode

from .. import automata as A
from ..explore import lang_of
from ..interp import MISSING
from ..rematch import Match
from ..values import S, Bound, Obj, Opaque, Pending, Seg, SList, Unsupported, is_str, parts_of, rope
from . import env_creole as env
from . import project

# containers: the emitter emits the children.  leaves: it emits the content only
CONTAINERS = ('document', 'paragraph', 'bullet_list', 'number_list', 'list_item', 'table', 'table_row', 'table_cell', 'table_head', 'link') + env.INLINE_MARKS
CONTENT = env.TEXTLIKE
EMPTY = ('break', 'line', 'separator')
INLINE = ('inline_re', 'link_re')


def lazy(p, o, name):
    if name == 'parent' and o.meta.get('above'):
        return above(p)
    return env.lazy(p, o, name)


class AboveFresh:
    def __call__(self, p):
        return above(p)

    def __eq__(self, o):
        return isinstance(o, AboveFresh)

    def __hash__(self):
        return 31


def container(p):
    o = env.arb(p)
    o.lazy = lazy
    o.meta['container'] = True
    o.meta['fresh'] = AboveFresh()
    o.meta['old'] = True
    o.fields['kind'] = p.atom('kind', A.words(tuple(sorted(set(CONTAINERS) - {'document'}))), ('kind', o))
    return o


def above(p):
    """an element on the right edge: the document or another container"""
    if p.choose(2, 'root') == 0:
        return p.extra['root']
    o = container(p)
    o.meta['above'] = True
    o.meta['at'] = len(p.extra['edge'].top)
    return o


class Edge:
    def __init__(self, deep):
        self.deep = deep    # the last node of the tree that is known
        self.top = []       # (parent, what is added to its children), in order
        self.bad = []       # what could not be followed


def any_parser(v, blog=True, debug=False, text=True):
    """a parser in any state of parse() in which the invariants above hold"""
    p = v.path
    raw = p.atom('raw')
    root = env.arb(p, kind='document', parent=None)
    root.meta['old'] = True
    root.meta['fresh'] = AboveFresh()
    p.extra['root'] = root
    ps = v.call(CreoleParser, raw, blog_line_breaks=blog, debug=debug)
    ps.fields['root'] = root
    p.extra['parser'] = ps
    p.extra['edge'] = Edge(root)
    cur = root if p.choose(2, 'cur') == 0 else above(p)
    ps.fields['cur'] = cur
    p.extra['cur'] = cur
    p.extra['edge'].deep = cur
    ps.fields['last_text_break'] = Pending(['none', ('obj', AboveFresh(), DocNode)], None)
    ps.fields['text'] = None
    p.extra['text'] = None
    if text and p.choose(2, 'text') == 0:
        p.extra['text'] = old_text(p, ps)
    return ps


def old_text(p, ps):
    """a text node at the end of the tree; its content so far is marked"""
    cur = ps.fields['cur']
    t = env.arb(p, kind='text', parent=cur)
    t.meta['old'] = True
    a = p.atom('sofar', A.ALL, ('sofar',))
    t.fields['content'] = a
    t.meta['sofar'] = a
    t.fields['children'] = p.slist([])
    ch = p.run.interp.getattr(cur, 'children')
    p.log.append(('l', ch, None, list(ch.items)))
    ch.items.append(t)
    p.log.append(('f', ps, 'text', ps.fields.get('text')))
    ps.fields['text'] = t
    p.extra['edge'].deep = t
    return t


def owner(p, lst):
    o = lst.meta.get('children_of')
    if o is not None:
        return o
    for o in reversed(p.reg):
        if isinstance(o, Obj) and o.cls is DocNode and o.fields.get('children') is lst:
            return o
    return None


def is_above(p, o, deep=None):
    """o is the last node of the tree or an element around it: True or None"""
    e = p.extra['edge']
    if o is p.extra['root']:
        return True
    n = e.deep if deep is None else deep
    for _ in range(50):
        if n is o:
            return True
        nxt = n.fields.get('parent', MISSING) if isinstance(n, Obj) else MISSING
        if not isinstance(nxt, Obj):
            break
        n = nxt
    if o.meta.get('above') and (o.meta['at'] == len(e.top) or o.meta['at'] == 0 and all(par is o for par, x in e.top)):
        return True
    return None


def append_hook(interp, lst, x):
    p = interp.path
    e = p.extra.get('edge')
    if e is None:
        return
    o = owner(p, lst)
    if o is None:
        return
    added(p, e, o, x)


def added(p, e, o, x):
    if not is_above(p, o):
        e.bad.append(f'{x!r} is added to {o!r}, which is not known to be at the end of the tree')
    if o.meta.get('old'):
        e.top.append((o, x))
    if isinstance(x, Obj):
        e.deep = x
        k = o.fields.get('kind')
        if k is not MISSING and not (is_str(k) and (k in CONTAINERS if isinstance(k, str) else lang_of(k) <= A.words(CONTAINERS))) and not (k == 'image'):
            e.bad.append(f'{x!r} is added to a {k!r}')


def new_hook(interp, o):
    if o.cls is DocNode:
        o.meta['fresh'] = AboveFresh()


# ---------------------------------------------------------------- what has been added
def flatten(p, o, D):
    """the pieces of text below a node in the order in which they are emitted, or Unsupported"""
    k = o.fields.get('kind')
    if not isinstance(k, str):
        raise Unsupported(f'a node of kind {k!r}')
    out = []
    c = o.fields.get('content')
    ch = o.fields.get('children')
    if k in CONTENT and c is not None:
        if not is_str(c):
            raise Unsupported(f'content {c!r}')
        out += keep(added_text(o, c), D)
    if k in CONTAINERS or k == 'image':
        items = list(ch.items)
        for x in items[:1] if k == 'image' else items:
            out += piece(p, x, D)
    return out


def added_text(o, c):
    sofar = o.meta.get('sofar')
    if sofar is None:
        return c
    ps = list(parts_of(c))
    if not ps or ps[0] is not parts_of(sofar)[0]:
        raise Unsupported('the text before is changed')
    return rope(*[x if isinstance(x, str) else S((x,)) for x in ps[1:]])


class Lost(Unsupported):
    """some of the texts are left out"""


OKS = {}    # id(list of the texts of a loop) -> every iteration adds its piece


def piece(p, x, D):
    if isinstance(x, Obj):
        return flatten(p, x, D)
    if isinstance(x, Seg):
        if isinstance(x.src, tuple) and x.src[0] == 'parsed':
            return keep(x.src[1], D)
        if x.kind == 'loop' and isinstance(x.src, tuple) and x.src[0] == 'map' and isinstance(x.src[1].src, tuple) and x.src[1].src[0] == 'finditer':
            c = OKS.get(id(x.alts))
            if c is not None and c[1] and all(c[1]):
                return keep(x.src[1].src[2], D)
            if not x.alts:
                return []
        if isinstance(x.src, tuple) and x.src[0] == 'children':
            return []       # was there before
        if isinstance(x.src, tuple) and x.src[0] == 'init' and textless(x.src[2]):
            return piece(p, x.src[1], D)
        s = x.src
        while isinstance(s, tuple) and s[0] in ('map', 'slice', 'reversed', 'sorted', 'set', 'list') and isinstance(s[1], Seg):
            if s[0] in ('slice', 'reversed', 'sorted', 'set') and isinstance(s[1].src, tuple) and s[1].src[0] == 'finditer':
                raise Lost(f'{s[0]} of the matches')
            s = s[1].src
    raise Unsupported(f'{x!r} in the tree')


def textless(o):
    k = o.fields.get('kind') if isinstance(o, Obj) else None
    return is_str(k) and (k in EMPTY if isinstance(k, str) else lang_of(k) <= A.words(EMPTY))


def keep(t, D):
    return project.keep(t, D, skip=False)


def new_texts(p, D):
    """all pieces of text that have been added, in the order of the tree"""
    e = p.extra['edge']
    out = []
    for o in p.reg:
        if isinstance(o, Obj) and o.meta.get('sofar') is not None:
            out_t = keep(added_text(o, o.fields['content']), D)
            if out_t and (o is not p.extra.get('text')) and not any(x is o for _, x in e.top):
                raise Unsupported('text in an unknown place')
            if o is p.extra.get('text'):
                out += out_t
    for o, x in e.top:
        if isinstance(x, Obj) and not any(y is x for y in o.fields['children'].items):
            continue        # removed again
        out += piece(p, x, D)
    return out


def subsequence(want, got):
    it = iter(got)
    return all(any(x == y for y in it) for x in want)


def iteration_hook(D, expected, name):
    """a loop over the matches of a pattern: every iteration adds the text of its match"""
    OKS.clear()

    def hook(interp):
        p = interp.path
        gone = removed(p)
        if gone:
            p.run.decide(name, None, f'in a loop: {gone}')
        it = p.extra.pop('sub_iter', None)
        if it is not None:
            try:
                ok = is_str(it[3]) and subsequence(project.keep(it[2].spec.whole, D), keep(it[3], D))
                p.run.decide(name, ok or (False if is_str(it[3]) else None), f'{it[2].spec.whole!r} is replaced by {it[3]!r}')
            except Unsupported as e:
                p.run.decide(name, None, str(e))
            return
        if 'loop_elem' not in p.extra or 'edge' not in p.extra:
            return
        seg, m = p.extra['loop_elem']
        if not (isinstance(m, Opaque) and isinstance(m.spec, Match)):
            return
        for rid, items in (p.extra.get('loop_new') or {}).items():
            o = p.reg[rid]
            segs = [x for x in o.items if isinstance(x, Seg) and x.kind == 'loop']
            if not segs:
                continue
            items = [x for x in items if x is not segs[-1]]
            try:
                got = [t for x in items for t in piece(p, x, D)]
                ok = subsequence(expected(m.spec.whole, D), got)
                if not ok and explained(p):
                    p.run.decide(name, False, f'{got!r} instead of {m.spec.whole!r}')
                ok = ok and not p.extra['edge'].bad
            except Unsupported:
                ok = False
            OKS.setdefault(id(segs[-1].alts), (segs[-1].alts, []))[1].append(ok)
    return hook


# ---------------------------------------------------------------- the state
def state(v, name, notext=False):
    """the invariants of cur and text at a call or return"""
    p = v.path
    if name is None or not v.feasible():
        return
    ps, e = p.extra['parser'], p.extra['edge']
    cur, t = ps.fields.get('cur'), ps.fields.get('text')
    if isinstance(cur, Pending) or isinstance(t, Pending):
        v.decide(name, None, f'cur {cur!r}, text {t!r}')
        return
    if not (isinstance(cur, Obj) and cur.cls is DocNode):
        v.decide(name, None, f'cur is {cur!r}')
        return
    k = cur.fields.get('kind', MISSING)
    if k is MISSING:
        ok = cur.meta.get('container')
    else:
        ok = is_str(k) and (k in CONTAINERS if isinstance(k, str) else lang_of(k) <= A.words(CONTAINERS))
    v.decide(name, bool(ok) or None, f'cur is a {k!r}')
    v.decide(name, is_above(p, cur) or cur.meta.get('edge') is e.deep and cur is e.deep or None, f'cur {cur!r} is not known to be at the end of the tree ({e.deep!r})')
    if notext:
        v.decide(name, t is None or None, 'there is an open text node')
    if t is not None:
        ok = isinstance(t, Obj) and t.fields.get('kind') == 'text' and t is e.deep
        known = isinstance(t, Obj) and (t.meta.get('sofar') is not None or not t.meta.get('arbitrary'))
        v.decide(name, ok or (False if known and isinstance(t, Obj) and t.fields.get('kind') == 'text' and not e.deep.meta.get('arbitrary') else None),
                 f'text is {t!r}, which is not the last node of the tree ({e.deep!r})')
    for b in e.bad:
        v.decide(name, None, b)


def parsed(p, ps, raw, anywhere=False):
    """the effect of parsing a text: its pieces are added at the end of the tree"""
    e = p.extra['edge']
    cur = ps.fields['cur']
    seg = Seg('src', elem=lambda i, pp: env.child_of(pp, cur), name='parsed', src=('parsed', raw))
    par = p.extra['root'] if anywhere else cur
    ch = p.run.interp.getattr(par, 'children')
    p.log.append(('l', ch, None, list(ch.items)))
    ch.items.append(seg)
    added(p, e, par, seg)
    p.log.append(('f', ps, 'text', ps.fields.get('text')))
    ps.fields['text'] = None
    if anywhere:
        c = container(p)
        c.meta['edge'] = c
        p.log.append(('f', ps, 'cur', cur))
        ps.fields['cur'] = c
        e.deep = c
        return      # block elements leave no open text node
    inner = env.arb(p, parent=cur)
    e.deep = inner
    if p.choose(2, 'text') == 0:
        old_text(p, ps)


class InlineContract:
    """parse_inline(raw): adds the text of raw below cur"""
    name = 'CreoleParser.parse_inline'

    def __init__(self, v, name):
        self.v = v
        self.ob = name

    def apply(self, interp, p, args, kwargs):
        ps = args[0]
        raw = args[1] if len(args) > 1 else kwargs.get('raw')
        if not is_str(raw):
            interp.throw(TypeError, 'expected string or bytes-like object')
        state(self.v, self.ob)
        parsed(p, ps, raw)
        return None


def real(f):
    return getattr(f, 'real', None) or f


def explained(p):
    """the children of the nodes that were there before have only changed by additions that have been followed"""
    e = p.extra['edge']
    for o in p.reg:
        if isinstance(o, Obj) and o.cls is DocNode and (o.meta.get('old') or o.meta.get('arbitrary')) and isinstance(o.fields.get('children'), SList):
            for x in o.fields['children'].items:
                if any(y is x for _, y in e.top) or isinstance(x, Obj) and x.meta.get('arbitrary'):
                    continue
                while isinstance(x, Seg) and isinstance(x.src, tuple) and x.src[0] == 'init' and textless(x.src[2]):
                    x = x.src[1]
                if isinstance(x, Seg) and isinstance(x.src, tuple) and x.src[0] in ('children', 'parsed'):
                    continue
                return False
    return not e.bad


def removed(p):
    """what has been done to the nodes that were there before, apart from additions and the removal of nodes without text"""
    first = {}
    for ent in p.log:
        o = ent[1]
        if ent[0] == 'l' and isinstance(o, SList) and ent[3] is not None and id(o) not in first:
            first[id(o)] = (o, ent[3])
        elif ent[0] == 'f' and isinstance(o, Obj) and o.cls is DocNode and (o.meta.get('old') or o.meta.get('arbitrary')) and ent[2] in ('kind', 'content', 'children', 'parent', 'sect'):
            if o.fields.get(ent[2]) is ent[3] or ent[2] == 'content' and o.meta.get('sofar') is not None:
                continue
            return f'{ent[2]} of {o!r} is changed'
    for o, old in first.values():
        n = owner(p, o)
        if n is None or not (n.meta.get('old') or n.meta.get('arbitrary')):
            continue
        now = list(o.items)
        k = 0
        for x in old:
            if k < len(now) and now[k] is x:
                k += 1
                continue
            if k < len(now) and isinstance(now[k], Seg) and isinstance(now[k].src, tuple) and now[k].src[0] == 'init' and now[k].src[1] is x and textless(now[k].src[2]):
                k += 1
                continue
            if textless(x) or isinstance(x, Seg) and p.memo.get(('seg', id(x))) is False:
                continue
            return f'{x!r} is removed from {n!r}'
    return ''


def resub_hook(obligation):
    def hook(interp, pat, repl, text):
        p = interp.path
        v = p.run
        e = p.extra.get('edge')
        if e is None:
            return NotImplemented
        ps = p.extra['parser']
        if not (isinstance(repl, Bound) and repl.self is ps and real(repl.func) is CreoleParser._replace):
            return NotImplemented
        inline = any(pat is getattr(CreoleParser, n) for n in INLINE)
        if not inline and not (pat is CreoleParser.item_re or pat is ps.fields.get('block_re')):
            raise Unsupported('_replace is called for the matches of another pattern')
        state(v, obligation)
        p.extra.setdefault('passes', []).append((pat, text))
        parsed(p, ps, text, anywhere=not inline)
        return ''
    return hook


def count_hook(obligation):
    """_replace is called for the first matches only: the rest of a long text is not converted"""
    def hook(interp, pat, repl, text, count):
        p = interp.path
        ps = p.extra.get('parser')
        if p.extra.get('edge') is None or not (isinstance(repl, Bound) and repl.self is ps and real(repl.func) is CreoleParser._replace):
            return False
        p.run.decide(obligation, False, f'only the first {count} matches of the text are converted')
        return True
    return hook
