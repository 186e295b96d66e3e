"""C09: the html converters keep all visible text, in order.

Induction over the document tree.  T(node) is the visible text of a node without D (whitespace and backslash), C(node) the
part of it that lies in cells of the table that is open at the node, O(node) the rest.

Contract of emit_node(node), proved for every kind of node of every emitter and used for the nodes below it:
  * when no table is open, T(node) is a subsequence of the result;
  * when a table is open, C(node) is appended to the cells of that table, O(node) is a subsequence of the result;
    nothing is removed from a table.
The parser appends every text, at the end of the document (the open element is always on the right edge of the tree)."""
import re

from creole.emitter import html2rest_emitter
from creole.parser.html_parser import HtmlParser
from creole.shared.document_tree import DocNode
from creole.shared.markup_table import MarkupTable

from .. import automata as A
from .. import models
from ..explore import lang_of
from ..values import (
    SI,
    Atom,
    Obj,
    PathEnd,
    S,
    SDict,
    Seg,
    SList,
    TExc,
    Unsupported,
    atom_of,
    is_str,
    key_of,
    parts_of,
    rope,
)
from . import c08, c12, project
from . import env_html as env

D = A.cs_norm(A.SPACE + A.cs_chars('\\'))
TEXT = 'the text of the node reaches the result'
CELL = 'the text of a cell reaches its table'
SCOPE = 'the children are emitted for the table they lie in'


def prove(pr):
    calls = [(emit, (w, k)) for w in env.EMITTERS for k in c08.kinds(w)]
    calls += [(emit, (w, None, h)) for w in env.EMITTERS for h in ('transparent_unknown_nodes', None)]
    calls += [(whole, (w,)) for w in env.EMITTERS] + [(handler, (n,)) for n in c08.handlers()] + [(feed, ())]
    pr.units(calls)
    pr.trust('html.parser', 'hands every text of the document to the handlers once, in order, when it is closed')
    pr.trust('re', 'sub() replaces non-overlapping matches and copies all other text')
    pr.trust('strip_html', 'changes whitespace only (C13)')
    pr.trust('Deentity.replace_all', 'keeps all text but the references, which it decodes (C12)')
    pr.trust('MarkupTable', 'a rendering contains every cell, in order (C11)')
    pr.assume('the text of <pre><code>..</code></pre> in html2markdown (parsed a second time as html) is covered by the bounded part')


# ---------------------------------------------------------------- texts
def atoms(v, seen=None):
    """every atom that v is made of"""
    seen = {} if seen is None else seen
    if isinstance(v, Atom):
        if id(v) in seen:
            return seen
        seen[id(v)] = v
        for x in v.origin:
            atoms(x, seen)
    elif isinstance(v, S):
        for x in v.parts:
            if not isinstance(x, str):
                atoms(x, seen)
    elif isinstance(v, (list, tuple)):
        for x in v:
            atoms(x, seen)
    elif isinstance(v, SList):
        atoms(v.items, seen)
    elif isinstance(v, Seg):
        if id(v) not in seen:
            seen[id(v)] = v
            atoms(getattr(v, 'src', None), seen)
            for alt in v.alts or ():
                atoms(alt, seen)
    elif isinstance(v, SDict):
        atoms(list(v.d.values()), seen)
    return seen


def emissions(v):
    return [a for a in atoms(v).values() if isinstance(a, Atom) and 'emit' in a.tags]


def children_of(p, x):
    """the node, when the atom holds the emissions of all its children, each once and in order, perhaps with other texts
    between them"""
    o = x.origin
    if o[0] == 'join':
        seg = project.kept(o[2])
        if seg.kind != 'loop' or not (isinstance(seg.src, tuple) and seg.src[0] == 'map'):
            return None
        src, alts = seg.src[1], seg.alts
    elif o[0] == 'acc' and len(o) > 2 and o[2] is not None:
        src, alts = o[2], o[1]
    else:
        return None
    if not (isinstance(src.src, tuple) and src.src[0] == 'children') or not alts:
        return None
    for alt in alts:
        n = 0
        for y in (alt if isinstance(alt, (tuple, list)) else [alt]):
            if not is_str(y):
                return None
            n += sum(1 for t in project.keep(y, D, lambda z: ('emit',) if z.origin[0] == 'emit' and 'elem' in z.tags else z.rid, False) if t == ('emit',))
        if n < 1:
            return None
    return src.src[1]


def contains(p, node, *texts):
    """the emissions of the children of node reach the texts -> (ok, detail, definite)"""
    for t in texts:
        for tok in project.keep(t, D, lambda x: ('children', children_of(p, x).rid) if children_of(p, x) is not None else x.rid):
            if tok == ('children', node.rid):
                return True, ''
    p.run.interp.getattr(node, 'children')
    if project.known_blank(p, node, D):
        return True, ''
    # the code has compared the text with a text that is written instead
    for pair in p.extra.get('equal', ()):
        for a, b in (pair, pair[::-1]):
            if project.keep(a, D, skip=False) != [('children', node.rid)]:
                continue
            want = project.keep(b, D)
            for t in texts:
                it = iter(project.keep(t, D))
                if all(any(x == y for y in it) for x in want):
                    return True, ''
    if any(emissions(t) for t in texts):
        part = bool(p.extra['skipped']) or any(project.part_of_children(a) for t in texts for a in atoms(t).values() if isinstance(a, Atom))
        return False, f'{texts!r} instead of the text of the children', part
    if any(a.lang <= project.star(D) and emissions(S((a,))) for a in p.reg if isinstance(a, Atom)) or any(emissions(a) for pair in p.extra.get('equal', ()) for a in pair):
        return False, f'{texts!r} instead of the text of the children', False
    return False, f'{texts!r}: the text of the children is missing', True


def appended(p, mark):
    """the texts that were appended to lists since mark, and whether anything else was done to a list"""
    first, clean = {}, True
    for ent in p.log[mark:]:
        if ent[0] == 'l' and ent[1].rid not in first:
            first[ent[1].rid] = (ent[1], ent[3])
    out = []
    for lst, old in first.values():
        old = old or ()
        if len(lst.items) < len(old) or any(a is not b for a, b in zip(old, lst.items)):
            clean = False
            continue
        out += [(lst, x) for x in lst.items[len(old):]]
    return out, clean


def emit(pr, which, kind, handler=None):
    cls = env.EMITTERS[which]
    label = f'{cls.__name__}.emit_node[{kind or "unknown tag: " + (handler or "default")}]'
    obs = [TEXT, SCOPE] + ([CELL] if kind in ('td', 'th') else [])
    skipped = []
    pieces = project.pieces_hook(D)

    def iteration(interp):
        pieces(interp)
        p = interp.path
        seg, e = p.extra.get('loop_elem', (None, None))
        if isinstance(e, Obj) and e.cls is DocNode and isinstance(seg.src, tuple) and seg.src[0] == 'children' and seg.src[1] is p.extra['first_node']:
            k = lang_of(p.run.interp.getattr(e, 'kind'))
            if not any(isinstance(a, Atom) and a.origin[0] == 'emit' and a.origin[1] is e for a in p.reg) and (k & A.words(env.VOID + env.INTERNAL)).empty() and not project.known_blank(p, e, D):
                skipped.append(k)

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False, handler=handler)
        if kind is None:
            node = env.arb(p)
            node.fields['kind'] = p.atom('kind', env.TAG - A.words(tuple(c08.kinds(which))), ('kind', node))
        elif kind == 'document':
            node = em.fields['root'] if p.choose(2, 'root') == 0 else env.arb(p, kind=kind)
        else:
            node = env.arb(p, kind=kind)
        p.extra['first_node'] = node
        p.extra['void'] = True
        p.extra['skipped'] = skipped
        old = em.fields.get('_table')
        p.extra['before_emit'] = lambda interp, e: scope(v, e, old, kind)
        mark = len(p.log)
        c = v.interp.getattr(node, 'content')
        if which == 'markdown' and kind == 'inlinedata_pre' and is_str(c):
            if p.fork_lang(atom_of(c), A.ALL + A.lit('</code>'), 'code'):
                raise PathEnd()
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
        except TExc as e:
            ok = which == 'rest' and e.cls is html2rest_emitter.Html2restException
            v.decide(TEXT, ok or None, f'{e.cls.__name__} ({v.where()})')
            return
        if not is_str(r):
            v.require(TEXT, False, f'{r!r}')
            return
        if c is not None and env.internal(p, node):
            text(v, which, node.fields['kind'], c, r)
            return
        tables = [o for o in p.reg if isinstance(o, Obj) and o.cls is MarkupTable and o is not old and o.meta.get('made')]
        new, clean = appended(p, mark)
        in_cell = kind in ('td', 'th') and isinstance(old, Obj)
        cells = []
        if isinstance(old, Obj) and isinstance(old.fields['rows'], SList):
            rows = old.fields['rows'].items
            for lst, x in new:
                if any(lst is row for row in rows) and is_str(x):
                    cells.append(x)
        texts = [r] + cells

        def later():
            # O(node) of a node that is no cell belongs into the result
            if in_cell:
                return contains(p, node, *texts)
            ok = contains(p, node, r)
            if not ok[0] and ok[2] and (cells or any(is_str(x) and emissions(x) for _, x in new)):
                ok = ok[:2] + (False,)
            return ok
        v.require(CELL if in_cell else TEXT, later)
        if not clean:
            v.decide(TEXT, None, 'a list is changed in another way')
        for t in tables:
            rendered(v, r, t)
    pr.verify(label, run, obs, models={**env.base_models(), MarkupTable.get_table_markup: markup, MarkupTable.get_rest_table: markup, MarkupTable.get_markdown_table: markup},
              contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, budget=120, hooks={'new': new, 'iteration': iteration, 'resub': resub})


def resub(interp, pat, repl, text):
    raise Unsupported('re.sub() with a function')


def new(interp, o):
    env.new_object(interp, o)
    o.meta['made'] = True


def markup(interp, p, t):
    x = p.atom('table_markup', A.ALL, ('markup', t, len(p.log)))
    return x


def rendered(v, r, t):
    """a table that the method makes is written after the children have put their cells into it"""
    p = v.path
    ms = [a for a in atoms(r).values() if isinstance(a, Atom) and a.origin[0] == 'markup' and a.origin[1] is t]
    late = [a for a in ms if not any(ent[0] == 'r' and ent[1] is t for ent in p.log[a.origin[2]:])]
    used = any(ent[0] == 'r' and ent[1] is t for ent in p.log)
    if not used:
        return
    top = [x for x in project.keep(r, D) if isinstance(x, int)]
    ok = any(a.rid in top for a in late)
    v.decide(TEXT, True if ok else False if not late else None, f'{r!r} does not contain the cells of the table')


def scope(v, em, old, kind):
    """before the emission of a child"""
    t = em.fields.get('_table')
    if t is None:
        return
    if isinstance(t, Obj) and t.meta.get('made') and t is not old:
        return
    if t is old:
        v.decide(SCOPE, None if kind in ('td', 'th') else True, 'the cells inside of a cell are put into the outer table')
        return
    v.decide(SCOPE, None, f'the table is {t!r}')


def text(v, which, kind, c, r):
    """nodes with a text of their own"""
    p = v.path
    if kind in ('charref', 'entityref'):
        if kind == 'entityref':
            want = c12.named(v.interp, c)
            want = rope('&', c) if want is None else want
        else:
            if p.fork_lang(atom_of(c), A.rx('[xX]') + A.ALL, 'hex'):
                want = c12.number(v.interp, models.getitem(v.interp, c, slice(1, None, None)), 16)
            else:
                want = c12.number(v.interp, c)
            want = rope('&#', c, ';') if want is None else want
        v.decide(TEXT, *project.equal(p, r, want, D))
        return
    if kind in ('blockdata_pre', 'inlinedata_pre'):
        ds = [x for x in p.reg if isinstance(x, Atom) and x.origin[0] == 'deentity' and key_of(x.origin[1]) == key_of(c)]
        if not ds:
            ok = lang_of(c) <= project.star(D)
            v.decide(TEXT, True if ok else any(a is atom_of(c) for a in atoms(r).values()) and None, f'{r!r} for {c!r}')
            return
        want = S((ds[0],))
    else:
        want = c

    def later():
        ks, kw = project.keep(r, D), project.keep(want, D)
        it = iter(ks)
        if all(any(x == y for y in it) for x in kw):
            return True, ''
        gone = atom_of(want) is not None and not any(a is atom_of(want) for a in atoms(r).values())
        return False, f'{r!r} for {want!r}', gone and not lang_of(want) <= project.star(D)
    v.require(TEXT, later)


# ---------------------------------------------------------------- the whole
def whole(pr, which):
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False)
        root = em.fields['root']
        p.extra['first_node'] = None
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit'), (), {})
        except TExc as e:
            ok = which == 'rest' and e.cls is html2rest_emitter.Html2restException
            v.decide(TEXT, ok or None, f'{e.cls.__name__} ({v.where()})')
            return
        result(v, r, lambda a: a.origin[1] is root)
    pr.verify(f'{cls.__name__}.emit', run, [TEXT], models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, hooks={'new': env.new_object}, budget=150)

    def run2(v):
        p = v.path
        html = p.atom('html')
        try:
            r = v.call(c08.ENTRIES[which], html)
        except TExc as e:
            ok = which == 'rest' and e.cls is html2rest_emitter.Html2restException
            v.decide(TEXT, ok or None, f'{e.cls.__name__} ({v.where()})')
            return
        result(v, r, lambda a: isinstance(a.origin[1], Obj) and a.origin[1].meta.get('of') == key_of(html))
    pr.verify(c08.ENTRIES[which].__name__, run2, [TEXT], models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, hooks={'new': env.new_object}, budget=150)


def result(v, r, good):
    p = v.path
    if not is_str(r):
        v.require(TEXT, False, f'{r!r}')
        return
    ks = [p.reg[x] for x in project.keep(r, D) if isinstance(x, int)]
    ok = any(a.origin[0] == 'emit' and good(a) for a in ks)
    if not ok and any(a.origin[0] == 'emit' and good(a) and a.lang <= project.star(D) for a in p.reg if isinstance(a, Atom)):
        ok = True
    v.decide(TEXT, True if ok else False if not emissions(r) else None, f'{r!r}')


# ---------------------------------------------------------------- the parser
KEPT = 'the text is appended at the end of the document'
EDGE = 'the open element stays on the right edge of the tree'


def handler(pr, name):
    label = f'HtmlParser.{name}'

    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        mark = len(p.log)
        args = tuple(env.ARGS[k](p) for k in c08.HANDLER_ARGS[name])
        blocks = ps.fields.get('blockdata')
        try:
            v.interp.call(v.interp.getattr(ps, name), args, {})
        except TExc as e:
            v.decide(KEPT, None, f'{e.cls.__name__} ({v.where()})')
            return
        made = [o for o in p.reg if isinstance(o, Obj) and o.cls is DocNode and not o.meta.get('arbitrary') and not o.meta.get('replaced')]
        new = v.interp.getattr(ps, 'cur')
        for ent in p.log[mark:]:
            if ent[0] == 'l' and ent[1].meta.get('children_of') is not None:
                o = ent[1].meta['children_of']
                if ent[3] is not None and (len(ent[1].items) < len(ent[3]) or any(a is not b for a, b in zip(ent[3], ent[1].items))):
                    v.decide(EDGE, None, 'children are removed or moved')
                elif not on_edge(p, o):
                    v.decide(EDGE, None, f'a node is appended to {o!r}')
                elif new is not o and not (new in made and last_of(p, new, made)):
                    v.decide(EDGE, None, f'a node is appended to {o!r}, {new!r} is open')
            if ent[0] == 'f' and isinstance(ent[1], Obj) and ent[1].cls is DocNode and ent[1].meta.get('arbitrary'):
                v.decide(EDGE, None, f'{ent[2]} of an existing node is written')
        v.decide(EDGE, on_edge(p, new) or new in made and last_of(p, new, made) or None, f'the open element is {new!r}')
        if new in made:
            void = lang_of(new.fields['kind']) & A.words(env.VOID)
            v.decide(EDGE, void.empty() or None, f'{new!r} is open')
        for o in made:
            if o is not new and o.fields['children'].items:
                v.decide(EDGE, None, f'{o!r} has children')
        if name in ('handle_data', 'handle_charref', 'handle_entityref'):
            kind = {'handle_data': 'data', 'handle_charref': 'charref', 'handle_entityref': 'entityref'}[name]
            nodes = [o for o in made if o.fields.get('content') is not None]
            if not nodes:
                blank = name == 'handle_data' and lang_of(args[0]) <= project.star(D)
                v.decide(KEPT, True if blank else False, 'the text is dropped')
            elif len(nodes) == 1 and is_str(nodes[0].fields['content']) and nodes[0].fields.get('kind') == kind:
                c = nodes[0].fields['content']
                if name == 'handle_data':
                    v.decide(KEPT, *project.equal(p, c, args[0], D))
                else:
                    v.decide(KEPT, key_of(c) == key_of(args[0]) or None, f'{c!r} for {args[0]!r}')
            else:
                v.decide(KEPT, None, f'{nodes!r}')
        else:
            for o in made:
                c = o.fields.get('content')
                if c is not None:
                    i = p.extra.get('picked')
                    v.decide(KEPT, *((None, f'{c!r}') if i is None else project.equal(p, c, S((i[1],)), D)))
            v.require(KEPT, True)
    pr.verify(label, run, [KEPT, EDGE], models=env.parser_models(), hooks={'new': env.new_node, 'list_index': block}, budget=120)


def on_edge(p, o):
    """o is the element that was open or an element around it"""
    return o is p.extra['root'] or isinstance(o, Obj) and o.meta.get('above') is True


def last_of(p, o, made):
    par = o.fields.get('parent')
    if not isinstance(par, Obj) or not on_edge(p, par):
        return False
    ch = par.fields.get('children')
    return isinstance(ch, SList) and bool(ch.items) and ch.items[-1] is o


def blank(p, html):
    """the text is known to be blank on this path"""
    return any(isinstance(a, Atom) and a.lang <= project.star(D) and project.keep(S((a,)), D, skip=False) == [atom_of(html).rid] for a in p.reg)


FEED = 'the parser gets all text, and is closed'
CUT = 'a preformatted area is kept for its placeholder'


def feed(pr):
    def run(v):
        p = v.path
        ps = v.call(HtmlParser)
        p.extra['root'] = ps.fields['root']
        p.extra['parser'] = ps
        html = p.atom('html')
        n = len(p.trace)
        try:
            v.interp.call(v.interp.getattr(ps, 'feed'), (html,), {})
        except TExc as e:
            v.decide(FEED, None, f'{e.cls.__name__} ({v.where()})')
            return
        fed = [t[1] for t in p.trace[n:] if t[0] == 'feed']
        last = [t[0] for t in p.trace[n:] if t[0] in ('feed', 'close')]
        if not fed:
            v.decide(FEED, False if 'close' not in last else None, 'nothing is parsed')
            return
        v.decide(FEED, last == ['feed', 'close'] or (False if 'close' not in last else None), f'{last!r}')
        if len(fed) == 1:
            k = project.keep(fed[0], D)
            v.decide(FEED, k == [atom_of(html).rid] or k == [] and blank(p, html) or (False if not any(a is atom_of(html) for a in atoms(fed[0]).values()) else None), f'{fed[0]!r} is parsed')
    pr.verify('HtmlParser.feed', run, [FEED, CUT], models=env.parser_models(), hooks={'new': env.new_node, 'iteration': cut}, budget=120)




def cut(interp):
    """a match of the search for preformatted areas is replaced by a placeholder for its text"""
    p = interp.path
    it = p.extra.pop('sub_iter', None)
    if it is None:
        raise Unsupported('another loop')
    pat, text, m, r = it
    v = p.run
    b = p.extra['parser'].fields.get('blockdata')
    if r is None or not is_str(r):
        v.decide(CUT, lang_of(m.spec.whole) <= project.star(D) or None, f'{m.spec.whole!r} is replaced by {r!r}')
        return
    if project.keep(r, D) == project.keep(m.spec.whole, D):
        v.decide(CUT, True)
        return
    new = b.items[-1] if isinstance(b, SList) and b.items else None
    if not is_str(new):
        v.decide(CUT, None, f'{m.spec.whole!r} is replaced by {r!r}')
        return
    got = project.keep(rope('<pre>', new, '</pre>'), D)
    want = project.keep(m.spec.whole, D)
    v.decide(CUT, got == want or (False if not any(isinstance(x, int) for x in got) and any(isinstance(x, int) for x in want) else None), f'{new!r} of {m.spec.whole!r}')
    ps = list(parts_of(r))
    if len(ps) == 1 and isinstance(ps[0], str):
        ps = re.split(r'(?<=id=")(\d+)(?=")', ps[0])
    ids = [x.origin[1] for x in ps if not isinstance(x, str) and x.origin[0] == 'str'] + [int(x) for x in ps if isinstance(x, str) and x.isdigit()]
    n = models.zint(models.length(interp, b))
    ok = len(ps) == 3 and len(ids) == 1 and isinstance(ids[0], (SI, int)) and p.entails(models.zint(ids[0]) == n - 1)
    kind = HtmlParser._placeholder_kinds if hasattr(HtmlParser, '_placeholder_kinds') else {}
    ok = ok and any(ps[0] == f'<{tag} type="{type}" id="' for tag, type in kind) and ps[2] == '" />'
    v.decide(CUT, ok or None, f'{r!r} for block {n}')


def block(interp, o, i):
    """the item of blockdata with an unknown index"""
    p = interp.path
    if o is not p.extra['parser'].fields.get('blockdata'):
        raise Unsupported('symbolic index')
    n = models.zint(models.length(interp, o))
    if not p.branch(models.z3.And(i.e < n, i.e >= -n), 'index'):
        interp.throw(IndexError, 'list index out of range')
    a = p.atom('block', A.ALL, ('block', i))
    p.extra['picked'] = (i, atom_of(a))
    return a
