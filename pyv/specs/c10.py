"""C10: heading levels and list nesting survive the html converters.

  * a heading element becomes a node of its level and is the open element until its end tag; a list element or item becomes
    a node of that kind below the open element and is open until its end tag (handlers of the parser);
  * the node of a heading of level n is written with the marker of level n and its title;
  * the children of a list are emitted with the markers of the enclosing lists and the one of this list, the children of
    all other nodes with unchanged markers, and the markers are restored (so they are those of the enclosing lists);
  * an item is written with these markers at the start of a line, and the lists keep the lines of their items."""
from z3 import z3util

from creole.emitter import html2rest_emitter
from creole.parser.html_parser import HtmlParser
from creole.parser.html_parser_config import IGNORE_TAGS

from .. import automata as A
from .. import models
from ..explore import lang_of
from ..values import S, SI, Atom, Obj, Seg, TExc, atom_of, is_str, key_of, parts_of, rope
from . import c08, project
from . import env_html as env

W = project.whites()
NOTHING = A.cs_norm([])
HEAD = 'a heading is written with the marker of its level'
TITLE = 'the title is written behind the marker'
MARKS = 'the children are emitted with the markers of the enclosing lists'
SAVED = 'the markers of the enclosing lists are restored'
ITEM = 'an item is written with the markers of its lists'
INDENT = 'an item is indented by its depth'
LINES = 'the lines of the items are kept'
MARK = {'creole': {'ul': '*', 'ol': '#'}, 'textile': {'ul': '*', 'ol': '#'}, 'rest': {'ul': '*', 'ol': '#.'}, 'markdown': {'ul': '*', 'ol': '1.'}}
FIELD = {'creole': '_inner_list', 'textile': '_inner_list', 'rest': '_list_markup'}
UNDER = {1: ('=', True), 2: ('-', True), 3: ('=', False), 4: ('-', False), 5: ('`', False), 6: ("'", False)}


def prove(pr):
    calls = [(headline, (w, n)) for w in env.EMITTERS for n in range(1, 7)]
    calls += [(marks, (w, k)) for w in FIELD for k in c08.kinds(w)] + [(marks, (w, None)) for w in FIELD]
    calls += [(item, (w, k)) for w in env.EMITTERS for k in ('ul', 'ol')] + [(lines, (w, k)) for w in env.EMITTERS for k in ('ul', 'ol')]
    calls += [(start, (w,)) for w in FIELD]
    calls += [(starttag, (t,)) for t in ('heading', 'list', 'li', 'other')] + [(endtag, (t,)) for t in ('heading', 'list', 'li', 'other')]
    pr.units(calls)
    pr.trust('html.parser', 'calls handle_starttag and handle_endtag for the tags in order, with the tag names in lower case')
    pr.assume('a list or heading at the start of the document or after a block is written at the start of a line (bounded part)')
    pr.assume('the level of a list item is the number of the open lists (the tag handlers count it: unit HtmlParser.handle_starttag)')


def text_of(p, a, node):
    """the atom is the text of the children, at most without whitespace at its ends"""
    t = rope(a)
    return project.keep(t, W, skip=False) == [('children', node.rid)]


def same_number(v, name, got, want, detail):
    """exact only if nothing but the expected number decides what it is"""
    free = {str(x) for x in z3util.get_vars(got)} - {str(x) for x in z3util.get_vars(want)}
    if free and not v.path.entails(got == want):
        v.decide(name, None, detail)
        return
    v.require(name, got == want, detail)


def bare(t):
    ps = list(parts_of(project.outer(t, W)))
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    return rope(*[x if isinstance(x, str) else S((x,)) for x in ps])


def emitter(v, which):
    em = env.any_emitter(v, which, debug=False)
    return em


def call(v, which, em, node):
    p = v.path
    p.extra['first_node'] = node
    p.extra['void'] = True
    try:
        r = v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
    except TExc as e:
        if which == 'rest' and e.cls is html2rest_emitter.Html2restException:
            return None
        v.decide(v.first, None, f'{e.cls.__name__} ({v.where()})')
        return None
    if not is_str(r):
        v.require(v.first, False, f'{r!r}')
        return None
    return r


def verify(pr, which, label, run, obs):
    cls = env.EMITTERS[which]

    def first(v):
        v.first = obs[0]
        run(v)
    pr.verify(label, first, obs, models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, budget=150,
              hooks={'new': env.new_object, 'iteration': project.pieces_hook(W)})


def headline(pr, which, n):
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        em = emitter(v, which)
        node = env.arb(p, kind='headline', is_internal=True)
        node.fields['level'] = n
        r = call(v, which, em, node)
        if r is None:
            return
        ps = parts_of(project.outer(r, W))
        head = {'creole': '=' * n + ' ', 'markdown': '#' * n + ' ', 'textile': f'h{n}. '}.get(which)
        titles = [x for x in ps if not isinstance(x, str) and text_of(p, x, node)]
        if head is not None:
            lit = ps[0] if ps and isinstance(ps[0], str) else ''
            v.decide(HEAD, True if lit.lstrip() == head else False if lit.strip() and lit.lstrip()[:len(head)] != head and not head.startswith(lit.lstrip()) else None, f'{r!r} for a heading of level {n}')
            empty = not titles and project.known_blank(p, node, W)
            v.decide(TITLE, empty or len(titles) == 1 and len(ps) == 2 or None, f'{r!r}')
            return
        char, both = UNDER[n]
        adornment(v, r, ps, node, char, both)

    def adornment(v, r, ps, node, char, both):
        p = v.path
        seq = []        # of the lines
        for x in parts_of(r):
            if isinstance(x, str):
                for i, s in enumerate(x.split('\n')):
                    if i:
                        seq.append([])
                    if s:
                        (seq[-1] if seq else seq.append([]) or seq[-1]).append(s)
            else:
                (seq[-1] if seq else seq.append([]) or seq[-1]).append(x)
        seq = [s for s in seq if s]
        title = [i for i, s in enumerate(seq) if len(s) == 1 and not isinstance(s[0], str) and text_of(p, s[0], node)]
        v.decide(TITLE, len(title) == 1 or project.known_blank(p, node, W) or None, f'{r!r}')
        if not title:
            return
        t = rope(seq[title[0]][0])
        want = [title[0] - 1, title[0] + 1] if both else [title[0] + 1]
        others = [i for i in range(len(seq)) if i != title[0]]
        v.decide(HEAD, others == want or None, f'{seq!r}')
        n = models.zint(models.length(v.interp, t))
        for i in others:
            s = seq[i][0] if len(seq[i]) == 1 else None
            if not isinstance(s, Atom) or s.origin[0] != 'repeat':
                v.decide(HEAD, None, f'{s!r}')
                continue
            v.decide(HEAD, s.origin[1] == char, f'{s.origin[1]!r} instead of {char!r}')
            same_number(v, HEAD, models.zint(s.origin[2]), n, 'the line is not as long as the title')
    verify(pr, which, f'{cls.__name__}.headline_emit[level {n}]', run, [HEAD, TITLE])


def marks(pr, which, kind):
    cls = env.EMITTERS[which]
    field = FIELD[which]

    def run(v):
        p = v.path
        em = emitter(v, which)
        if kind is None:
            node = env.arb(p)
            node.fields['kind'] = p.atom('kind', env.TAG - A.words(tuple(c08.kinds(which))), ('kind', node))
        elif kind == 'document':
            node = em.fields['root'] if p.choose(2, 'root') == 0 else env.arb(p, kind=kind)
        else:
            node = env.arb(p, kind=kind)
        if field not in em.fields:
            v.decide(MARKS, None, f'no {field}')
            return
        old = em.fields[field]
        add = MARK[which].get(kind)
        want = old if add is None else add if which == 'rest' else rope(old, add)

        def before(interp, e):
            got = e.fields.get(field)
            v.same(MARKS, got, want, f'{field} at a child of {kind}:')
        p.extra['before_emit'] = before
        r = call(v, which, em, node)
        if r is None:
            return
        v.same(SAVED, em.fields.get(field), old, f'{field}:')
    verify(pr, which, f'{cls.__name__}.emit_node[{kind or "unknown tag"}]', run, [MARKS, SAVED])


def item(pr, which, kind):
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        em = emitter(v, which)
        parent = env.arb(p, kind=kind)
        node = env.arb(p, kind='li', parent=parent)
        mark = em.fields.get(FIELD[which]) if which in FIELD else MARK[which][kind]
        if not is_str(mark):
            v.decide(ITEM, None, f'{mark!r}')
            return
        r = call(v, which, em, node)
        if r is None:
            return
        ps = parts_of(project.outer(r, W))
        titles = [x for x in ps if not isinstance(x, str) and text_of(p, x, node)]
        before = rope(*ps[:ps.index(titles[0])]) if titles else rope(*ps)
        v.same(ITEM, bare(before), bare(mark), 'the marker:')
        if titles and parts_of(mark):
            last = parts_of(before)[-1:]
            v.decide(ITEM, bool(last) and isinstance(last[0], str) and last[0].endswith(' ') or None, f'{r!r}: no space behind the marker')
            v.decide(ITEM, ps[-1] is titles[0] or None, f'{r!r}: text behind the title')
        v.decide(ITEM, len(titles) == 1 or project.known_blank(p, node, W) or None, f'{r!r}')
        top = parts_of(r)
        v.decide(ITEM, bool(top) and isinstance(top[0], str) and top[0].startswith('\n') or which == 'markdown' or None, f'{r!r} does not start a line')
        if which in ('rest', 'markdown'):
            indent(v, node, top)

    def indent(v, node, top):
        p = v.path
        ps = list(top)
        if ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip('\n')
        a = next((x for x in ps if x), None)
        depth = models.zint(node.fields['level'])
        if isinstance(a, str) or is_str(a) and atom_of(rope(a)) is None:
            n = len(a) - len(a.lstrip()) if isinstance(a, str) else None
            v.decide(INDENT, n == 0 and p.entails(depth == 1) or None, f'{top!r}')
            return
        a = atom_of(rope(a))
        if a is None or a.origin[0] != 'repeat' or not isinstance(a.origin[1], str):
            v.decide(INDENT, None, f'{top!r}')
            return
        unit, n = a.origin[1:3]
        v.decide(INDENT, len(unit) >= 2 and not unit.strip(' ') or None, f'indented with {unit!r}')
        same_number(v, INDENT, models.zint(n), depth - 1, f'indented {n!r} times in depth {depth}')
    verify(pr, which, f'{cls.__name__}.li_emit[in {kind}]', run, [ITEM] + [INDENT] * (which in ('rest', 'markdown')))


def shortened(x):
    """more than newlines may be missing at the ends"""
    while isinstance(x, Atom) and x.origin[0] in ('lstrip', 'rstrip', 'replace', 're.sub', 'resub'):
        if x.origin[0] not in ('lstrip', 'rstrip') or not (isinstance(x.origin[2], str) and set(x.origin[2]) <= {'\n'}):
            return True
        x = atom_of(x.origin[1])
    return False


def lines(pr, which, kind):
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        em = emitter(v, which)
        node = env.arb(p, kind=kind)
        r = call(v, which, em, node)
        if r is None:
            return
        ps = parts_of(project.outer(r, W))
        if not ps and project.known_blank(p, node, W):
            v.decide(LINES, True)
            return
        if len(ps) != 1 or isinstance(ps[0], str) or not text_of(p, ps[0], node):
            v.decide(LINES, None, f'{r!r}')
            return
        a = ps[0]
        indented = which in ('rest', 'markdown')
        while project.children(a, W) is None:
            o = a.origin
            if o[0] in ('replace', 're.sub') or o[0] == 'join' and '\n' not in o[1]:
                v.decide(LINES, None, f'{a!r}: {o[0]}')
                return
            if o[0] == 'join':
                seg = o[2]
                while isinstance(seg.src, tuple) and seg.src[0] == 'map':
                    lost = indented and [t for alt in seg.alts for t in alt if not is_str(t) or any(shortened(x) for x in parts_of(t))]
                    if lost:
                        v.decide(LINES, None, f'{lost!r} may have lost the indentation')
                        return
                    seg = seg.src[1]
                if not (isinstance(seg.src, tuple) and (seg.src[0] == 'splitlines' or seg.src[0] == 'split' and isinstance(seg.src[2], str) and set(seg.src[2]) <= {'\n'})):
                    v.decide(LINES, None, f'{a!r} is made of {seg.src!r}')
                    return
            if indented and (o[0] in ('re.sub', 'resub', 'strip_html') or o[0] in ('lstrip', 'rstrip') and not (isinstance(o[2], str) and set(o[2]) <= {'\n'})):
                v.decide(LINES, None, f'{a!r} may have lost the indentation')
                return
            u = project.under(a, W)
            b = None if u is None else atom_of(u)
            if b is None:
                v.decide(LINES, None, f'{a!r}: {o[0]}')
                return
            a = b
        v.decide(LINES, True)
    verify(pr, which, f'{cls.__name__}.{kind}_emit', run, [LINES])


def start(pr, which):
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        root = env.root_node(p)
        em = v.call(cls, root)
        field = FIELD[which]
        p.extra['first_node'] = None
        seen = []
        p.extra['before_emit'] = lambda interp, e: seen.append(v.same(MARKS, e.fields.get(field), '', f'{field}:'))
        try:
            v.interp.call(v.interp.getattr(em, 'emit'), (), {})
        except TExc as e:
            if which == 'rest' and e.cls is html2rest_emitter.Html2restException:
                return
            v.decide(MARKS, None, f'{e.cls.__name__} ({v.where()})')
        v.decide(MARKS, bool(seen) or None, 'emit_node() is not called')
    pr.verify(f'{cls.__name__}.emit', run, [MARKS], models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, budget=150, hooks={'new': env.new_object})


# ---------------------------------------------------------------- the parser
NODE = 'the element becomes a node of its kind and level below the open element, and is open'
CLOSED = 'the end tag closes the element'
DEPTH = 'the depth of the lists is counted'
HEADINGS = A.words(tuple(f'h{i}' for i in range(1, 7)))
LISTS = A.words(('ul', 'ol'))
CELLS = A.words(('td', 'th', 'tr'))
LANGS = {'heading': HEADINGS, 'list': LISTS, 'li': A.lit('li'), 'other': env.TAG - HEADINGS - LISTS - A.lit('li') - CELLS - A.words(env.VOID) - A.words(tuple(IGNORE_TAGS))}


def depth(p, ps):
    x = ps.fields.get(env.LEVEL)
    return models.zint(x) if isinstance(x, (int, SI)) else None


def starttag(pr, what):
    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        tag = p.atom('tag', LANGS[what])
        if what == 'heading':
            n = 1 + p.choose(6, 'level')
            tag = f'h{n}'
        elif what == 'list':
            tag = ('ul', 'ol')[p.choose(2, 'list')]
        old, d0 = ps.fields['cur'], depth(p, ps)
        ch = v.interp.getattr(old, 'children')
        before = list(ch.items)
        try:
            v.interp.call(v.interp.getattr(ps, 'handle_starttag'), (tag, env.ARGS['attrs'](p)), {})
        except TExc as e:
            v.decide(NODE, None, f'{e.cls.__name__} ({v.where()})')
            return
        cur = ps.fields.get('cur')
        new = [x for x in ch.items if not any(x is y for y in before)]
        if len(new) != 1 or not isinstance(new[0], Obj) or ch.items[-1] is not new[0]:
            v.decide(NODE, None, f'{new!r}')
            return
        o = new[0]
        v.decide(NODE, cur is o, f'{cur!r} is open after <{tag!r}>')
        v.decide(NODE, o.fields.get('parent') is old or None, f'below {o.fields.get("parent")!r}')
        want = 'headline' if what == 'heading' else tag
        v.same(NODE, o.fields['kind'], want, 'kind:')
        if what == 'heading':
            lv = o.fields['level']
            v.decide(NODE, lv == n if isinstance(lv, int) else True if isinstance(lv, SI) and p.entails(lv.e == n) else None, f'level {lv!r} for {tag!r}')
        d1 = depth(p, ps)
        if d0 is None or d1 is None:
            v.decide(DEPTH, None, 'the depth is not known')
            return
        v.require(DEPTH, d1 == d0 + (1 if what == 'list' else 0), 'depth')
        if what in ('list', 'li'):
            lv = o.fields['level']
            v.require(DEPTH, isinstance(lv, (int, SI)) and models.zint(lv) == d1, f'level {lv!r}')
    pr.verify(f'HtmlParser.handle_starttag[{what}]', run, [NODE, DEPTH], models=env.parser_models(), hooks={'new': env.new_node}, budget=150)


def endtag(pr, what):
    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        tag = p.atom('tag', LANGS[what])
        if what == 'heading':
            tag = f'h{1 + p.choose(6, "level")}'
        elif what == 'list':
            tag = ('ul', 'ol')[p.choose(2, 'list')]
        root = ps.fields['root']
        parent = root if p.choose(2, 'parent') == 0 else env.arb(p)
        cur = env.arb(p, kind='headline' if what == 'heading' else tag, parent=parent, is_internal=what == 'heading')
        d0 = depth(p, ps)
        ps.fields['cur'] = cur
        if what == 'heading':
            cur.fields['level'] = p.int('level', 1, 6)
        elif what in ('list', 'li') and d0 is not None:
            p.assume(d0 >= 1)
        try:
            v.interp.call(v.interp.getattr(ps, 'handle_endtag'), (tag,), {})
        except TExc as e:
            v.decide(CLOSED, None, f'{e.cls.__name__} ({v.where()})')
            return
        now = ps.fields.get('cur')
        v.decide(CLOSED, now is parent, f'{now!r} is open after </{tag!r}>')
        d1 = depth(p, ps)
        if d0 is None or d1 is None:
            v.decide(DEPTH, None, 'the depth is not known')
            return
        v.require(DEPTH, d1 == d0 - (1 if what == 'list' else 0), 'depth')
    pr.verify(f'HtmlParser.handle_endtag[{what}]', run, [CLOSED, DEPTH], models=env.parser_models(), hooks={'new': env.new_node}, budget=150)
