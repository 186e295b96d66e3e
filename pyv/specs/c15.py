"""C15: html2rest defines every reference it uses, once, with one target.

State: the names in use (one dict for the links, one for the images: name -> target) and the pending definitions.
Invariant of an emission: a name is in the dict iff its definition was written into the pending definitions or, for a
link, into the emitted text, once, with the target of the dict.  It is kept because
  * a_emit and img_emit, in any state, write a reference to a name in use with this very target, or take the name into
    use and write one definition of it, or raise Html2restException because the target is another one;
  * no other method changes the names in use or the pending definitions;
  * document_emit writes all pending definitions into the result, once, each as a line of a block of its own;
  * no method uses the emission of its children twice."""
import creole
from creole.emitter import html2rest_emitter
from creole.shared.document_tree import DocNode

from .. import automata as A
from .. import models
from ..explore import lang_of
from ..values import (
    Atom,
    Obj,
    S,
    SDict,
    Seg,
    SList,
    TExc,
    Unsupported,
    is_str,
    key_of,
    parts_of,
    rope,
)
from . import c08, c09
from . import env_html as env

ReST = env.EMITTERS['rest']
CONFLICT = html2rest_emitter.Html2restException
LINKS, IMAGES, PENDING = '_used_substitution_links', '_used_substitution_images', '_substitution_data'
STATE = (LINKS, IMAGES, PENDING)

NEW = 'a new name is taken into use with the target of the element'
DEFINED = 'a new name is defined, once'
REUSED = 'a name in use is written only if the element has its target'
RAISED = 'Html2restException is raised only for a name in use with another target'
REFERENCE = 'the result is a reference to the name'
FRAME = 'nothing else changes the names in use and the pending definitions'
ONCE = 'the emission of a child is not used twice'
FLUSHED = 'all pending definitions are written, once'
ALONE = 'the definitions are a block of their own'
START = 'starts without names in use and pending definitions'
TARGET = 'the node has the target of the tag'
RESULT = 'the emission of the document is the result'


def prove(pr):
    ks = [k for k in c08.kinds('rest') if k not in ('a', 'img', 'document')]
    tags = [('handle_starttag', 'a', 'href'), ('handle_starttag', 'img', 'src'), ('handle_startendtag', 'img', 'src')]
    pr.units([(link, ()), (image, ()), (document, ()), (start, ())] + [(target, t) for t in tags] + [(other, (k,)) for k in ks] + [(other, (None, h)) for h in env.HANDLERS])
    pr.assume('names are words that reStructuredText accepts as names (no backquote, bar, colon, line feed, no leading or trailing whitespace)')
    pr.assume('names that docutils identifies with each other (case, whitespace) are different names here')
    pr.assume('a text of the document that looks like a reference is no reference')
    pr.trust('html.parser', 'attribute values are handed over as they are, with references decoded')
    pr.trust('MarkupTable.get_rest_table', 'a rendering contains every cell, once (C11)')


def arbitrary(em):
    """the state is an arbitrary one, nothing was written since the last emission -> (True, False: a name in use is
    forgotten, None: something else; what was written)"""
    for k in (LINKS, IMAGES):
        d = em.fields.get(k)
        if not (isinstance(d, SDict) and isinstance(d.sym, env.Used) and not d.d):
            return (False if isinstance(d, SDict) and d.sym is None and not d.d else None), f'{k} is {d!r}'
    x = em.fields.get(PENDING)
    if not (isinstance(x, SList) and len(x.items) == 1 and pending(x.items[0])):
        return None, f'{PENDING} is {x!r}'
    return True, ''


def pending(x):
    return isinstance(x, Seg) and x.kind == 'src' and x.name == 'substitutions'


def emitter(v):
    em = env.any_emitter(v, 'rest', debug=False)
    if any(k not in em.fields for k in STATE):
        raise Unsupported('the emitter has another state')
    return em


def before_emit(v, ob):
    """the names in use and the definitions are written after the emission of the children only"""
    def hook(interp, em):
        ok, w = arbitrary(em)
        if not ok:
            v.decide(ob, None, f'before the emission of a child {w}')
    return hook


def unwritten_yet(interp):
    before_emit(interp.path.run, FRAME)(interp, interp.path.extra['emitter'])


def run_emit(v, em, node):
    p = v.path
    p.extra['first_node'] = node
    try:
        return v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {}), None
    except TExc as e:
        return None, e


def verify(pr, label, run, obs, **kw):
    cls = ReST
    hooks = {'new': env.new_object, **kw.pop('hooks', {})}
    pr.verify(label, run, obs, models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, budget=120, hooks=hooks, **kw)


# ---------------------------------------------------------------- links and images
def snapshot(p, d):
    """the dict before the writes: the same decisions"""
    x = SDict({}, env.Used(), {})
    x.rid = d.rid
    return x


def writes(d):
    """[(key, value)] written to the arbitrary dict, None if it is another dict"""
    if not isinstance(d, SDict):
        return None
    out = list(d.d.items())
    if isinstance(d.sym, models.GrownDict):
        if not isinstance(d.sym.base, env.Used):
            return None
        return out + list(d.sym.writes)
    return out if isinstance(d.sym, env.Used) else None


def child_raised(e, v):
    """the exception of the emission of a child"""
    x = getattr(e.value, 'fields', {}).get('args')
    return isinstance(x, tuple) and x == ('two targets',) or isinstance(x, SList) and x.items == ['two targets']


def element(v, kind, field, attr):
    """runs the method -> (emitter, result or None, exception or None, target)"""
    p = v.path
    em = emitter(v)
    node = env.arb(p, kind=kind)
    p.extra['before_emit'] = before_emit(v, FRAME)
    attrs = v.interp.getattr(node, 'attrs')
    r, e = run_emit(v, em, node)
    other = IMAGES if field == LINKS else LINKS
    w = writes(em.fields[other])
    v.decide(FRAME, w == [] if w is not None else None, f'{other}: {w!r}')
    has = models.dict_has(v.interp, attrs, attr)
    url = models.dict_get(v.interp, attrs, attr) if has else None
    return em, r, e, url


def lines_added(em):
    x = em.fields[PENDING]
    if not isinstance(x, SList) or not x.items or not pending(x.items[0]):
        return None
    return list(x.items[1:])


def unwritten(v, em, field, ob):
    w, l = writes(em.fields[field]), lines_added(em)
    v.decide(ob, None if w is None else w == [], f'{field}: {w!r}')
    v.decide(ob, l == [] or None, f'{PENDING}: {l!r}')


def conflict(v, em, field, url, e, looked):
    """the exception is right: a name that was looked up has another target"""
    p = v.path
    if child_raised(e, v):
        return
    if e.cls is not CONFLICT:
        v.decide(RAISED, None, f'{e.cls.__name__} ({v.where()})')
        return
    ok = url is not None and any(not models.str_eq(p, u, url) for _k, u in looked)
    v.decide(RAISED, ok, f'targets {looked!r}, target of the element {url!r}')
    unwritten(v, em, field, FRAME)


def looked_up(p, em, field):
    """[(name, target)] that was read from the dict"""
    d = em.fields[field]
    return [(a.origin[2], S((a,))) for a in p.reg if isinstance(a, Atom) and a.origin[0] == 'used' and a.origin[1].rid == d.rid]


def cut(r, a, b):
    """the text between the literals a and b, or None"""
    ps = list(parts_of(r))
    if not ps:
        return None
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0][len(a):len(ps[0]) - len(b)] if ps[0].startswith(a) and ps[0].endswith(b) and len(ps[0]) >= len(a) + len(b) else None
    if not (isinstance(ps[0], str) and ps[0].startswith(a) and isinstance(ps[-1], str) and ps[-1].endswith(b)):
        return None
    ps[0] = ps[0][len(a):]
    ps[-1] = ps[-1][:len(ps[-1]) - len(b)]
    return rope(*[x if isinstance(x, str) else S((x,)) for x in ps if x != ''])


def named(v, em, field, name, url, definition, used_again):
    """the name was written as a reference"""
    p = v.path
    d = snapshot(p, em.fields[field])
    w, l = writes(em.fields[field]), lines_added(em)
    if w is None or l is None:
        v.decide(FRAME, None if w is None else False, f'{em.fields[field]!r} {em.fields[PENDING]!r}')
        return
    if models.dict_has(v.interp, d, name):
        old = models.dict_get(v.interp, d, name)
        v.decide(REUSED, url is not None and models.str_eq(p, old, url), f'{name!r} has the target {old!r}, the element {url!r}')
        v.decide(DEFINED, l == [] and used_again, f'{name!r} is in use and defined again: {l!r}')
        v.decide(NEW, w == [] or all(key_of(k) == key_of(name) and key_of(x) == key_of(url) for k, x in w), f'{w!r}')
        return
    v.decide(NEW, len(w) == 1, f'{name!r}: {w!r}')
    if len(w) == 1:
        v.same(NEW, w[0][0], name)
        v.same(NEW, w[0][1], url if url is not None else '')
    definition(l)


def link(pr):
    obs = [NEW, DEFINED, REUSED, RAISED, REFERENCE, FRAME]

    def run(v):
        p = v.path
        em, r, e, url = element(v, 'a', LINKS, 'href')
        if e is not None:
            conflict(v, em, LINKS, url, e, looked_up(p, em, LINKS))
            return
        v.require(RAISED, True)
        if not is_str(r):
            v.decide(REFERENCE, False, f'{r!r}')
            return
        if url is None:
            unwritten(v, em, LINKS, FRAME)
            return
        inline = cut(r, '`', rope(' <', url, '>`_')) if isinstance(url, str) else before_target(r, url)
        name = inline if inline is not None else cut(r, '`', '`_')
        if name is None:
            v.decide(REFERENCE, None if [x for x in parts_of(r) if isinstance(x, str) and '`' in x] else False, f'{r!r}')
            return
        v.require(REFERENCE, True)

        def definition(l):
            if inline is not None:
                v.decide(DEFINED, l == [], f'{name!r} is defined in the text, and {l!r}')
                return
            v.decide(DEFINED, len(l) == 1 and is_str(l[0]), f'{name!r}: {l!r}')
            if len(l) == 1 and is_str(l[0]):
                v.same(DEFINED, l[0], rope('.. _', name, ': ', url))
        named(v, em, LINKS, name, url, definition, inline is None)
    verify(pr, 'ReStructuredTextEmitter.a_emit', run, obs, hooks={'iteration': unwritten_yet})


def before_target(r, url):
    """the text of `text <url>`_, or None"""
    ps, us = list(parts_of(r)), list(parts_of(url))
    n = len(us)
    if len(ps) < n + 2 or ps[-1] != '>`_' or [key_of(x) if not isinstance(x, Atom) else x.rid for x in ps[-1 - n:-1]] != [key_of(x) if not isinstance(x, Atom) else x.rid for x in us]:
        return None
    head = ps[:-1 - n]
    if not (isinstance(head[0], str) and head[0].startswith('`') and isinstance(head[-1], str) and head[-1].endswith(' <')):
        return None
    return cut(rope(*[x if isinstance(x, str) else S((x,)) for x in head]), '`', ' <')


def image(pr):
    obs = [NEW, DEFINED, REUSED, RAISED, REFERENCE, FRAME]

    def run(v):
        p = v.path
        em, r, e, url = element(v, 'img', IMAGES, 'src')
        url = '' if url is None else url
        if e is not None:
            conflict(v, em, IMAGES, url, e, looked_up(p, em, IMAGES))
            return
        v.require(RAISED, True)
        if not is_str(r):
            v.decide(REFERENCE, False, f'{r!r}')
            return
        if r == '':
            # no reference
            unwritten(v, em, IMAGES, FRAME)
            return
        name = cut(r, '|', '|')
        v.decide(REFERENCE, name is not None or None, f'{r!r}')
        if name is None:
            return

        def definition(l):
            v.decide(DEFINED, len(l) == 1 and is_str(l[0]), f'{name!r}: {l!r}')
            if len(l) == 1 and is_str(l[0]):
                v.same(DEFINED, l[0], rope('.. |', name, '| image:: ', url))
        named(v, em, IMAGES, name, url, definition, True)
    verify(pr, 'ReStructuredTextEmitter.img_emit', run, obs, hooks={'iteration': unwritten_yet})


# ---------------------------------------------------------------- the document
def taken(p, mark):
    """the lists of pending definitions that were replaced or emptied since mark, None when another thing was done to one"""
    out = []
    for n, old, keep in p.extra.get('taken', ()):
        if n >= mark:
            if not isinstance(old, SList):
                return None
            out.append([x for x in old.items if x not in keep])
    for ent in p.log[mark:]:
        if ent[0] == 'l' and any(pending(x) for x in ent[3] or ()):
            if ent[1].items:
                return None
            out.append(list(ent[3]))
    return out


def replaced(interp, o, name, val):
    """'setattr' hook: the pending definitions are replaced by the code"""
    p = interp.path
    if name == PENDING and o is p.extra.get('emitter'):
        p.extra.setdefault('taken', []).append((len(p.log) - 1, p.log[-1][3], list(val.items) if isinstance(val, SList) else []))


def occurrences(x, seen=()):
    """how often the definitions of a segment may be in x -> {id of the segment: number}"""
    out = {}
    if isinstance(x, S):
        for y in x.parts:
            for k, n in occurrences(y).items():
                out[k] = out.get(k, 0) + n
    elif isinstance(x, Atom):
        for y in x.origin:
            if pending(y):
                out[id(y)] = out.get(id(y), 0) + 1
            elif isinstance(y, (S, Atom)):
                for k, n in occurrences(y).items():
                    out[k] = out.get(k, 0) + n
            elif isinstance(y, (list, tuple)) and x.origin[0] not in ('acc',):
                for z in y:
                    for k, n in occurrences(z).items():
                        out[k] = out.get(k, 0) + n
    return out


def flushed(v, p, head, parts, lists):
    """the text head + parts holds the definitions of the lists once, between empty lines -> (ok, alone)"""
    segs = []
    for items in lists:
        if any(not pending(x) for x in items):
            return None, None
        segs += items
    segs = [x for x in segs if not p.entails(models.zint(models.seg_len(p, x)) == 0)]
    parts = list(parts)
    ok = alone = True
    total = occurrences(S(tuple(x for x in parts if not isinstance(x, str))))
    if set(total) - {id(x) for x in segs}:
        return None, None
    for s in segs:
        at = [i for i, x in enumerate(parts) if isinstance(x, Atom) and x.origin[0] == 'join' and x.origin[1] == '\n' and x.origin[2] is s]
        if not at or len(at) > 1 or total.get(id(s), 0) != 1:
            known = all(isinstance(x, str) or x.origin[0] in ('emit', 'join') for x in parts)
            return (False if known and total.get(id(s), 0) != 1 else None), None
        i = at[0]
        pre = rope(head, *[x if isinstance(x, str) else S((x,)) for x in parts[:i]])
        if not lang_of(pre) <= (A.ALL + A.lit('\n\n') | A.EPS):
            alone = None
        if not (i + 1 < len(parts) and isinstance(parts[i + 1], str) and parts[i + 1].startswith('\n\n')):
            alone = None
    return ok, alone


def document(pr):
    obs = [FLUSHED, ALONE, FRAME]
    reg = {}

    def iteration(interp):
        p = interp.path
        v = p.run
        em = p.extra['emitter']
        t = taken(p, p.extra['loop_log'])
        for alts, hv, s in p.extra['loop_app']:
            ok = (None, None) if t is None or s is None else flushed(v, p, hv, parts_of(s) if is_str(s) else s, t)
            if p.check() != models.z3.unsat:
                reg.setdefault(id(alts), (alts, []))[1].append(ok)
        for k in (LINKS, IMAGES):
            w = writes(em.fields[k])
            v.decide(FRAME, w == [] if w is not None else None, f'{k}: {w!r}')

    def run(v):
        p = v.path
        em = emitter(v)
        node = em.fields['root']
        if node is None:
            raise Unsupported('no document')
        mark = len(p.log)
        r, e = run_emit(v, em, node)
        if e is not None:
            v.decide(FRAME, child_raised(e, v) or None, f'{e.cls.__name__} ({v.where()})')
            return
        if not is_str(r):
            v.decide(FLUSHED, False, f'{r!r}')
            return
        t = taken(p, mark)
        now = em.fields[PENDING]
        if t is None or not isinstance(now, SList):
            v.decide(FLUSHED, None, f'{now!r}')
            return
        v.decide(FLUSHED, p.entails(models.sum_len(p, now.items) == 0), f'{now!r} is still pending')
        for k in (LINKS, IMAGES):
            w = writes(em.fields[k])
            v.decide(FRAME, w == [] if w is not None else None, f'{k}: {w!r}')
        # what was put together in loops, and what comes after them
        parts = list(parts_of(r))
        at = max((i for i, x in enumerate(parts) if isinstance(x, Atom) and x.origin[0] == 'acc'), default=-1)
        loops = [x for x in parts[:at + 1] if isinstance(x, Atom) and x.origin[0] == 'acc']

        def later():
            for x in loops:
                c = reg.get(id(x.origin[1]))
                if c is None or not c[1]:
                    if x.origin[1]:
                        return False, f'{x!r} was made in another way', False
                    continue
                if any(ok is not True for ok, _ in c[1]):
                    return False, 'the definitions are not written into the text where they are taken', all(ok is not None for ok, _ in c[1])
            return True, ''

        def later_alone():
            for x in loops:
                c = reg.get(id(x.origin[1]))
                if c is not None and any(a is not True for _, a in c[1]):
                    return False, 'in the loop', False
            return True, ''
        v.require(FLUSHED, later)
        v.require(ALONE, later_alone)
        head = rope(*[x if isinstance(x, str) else S((x,)) for x in parts[:at + 1]])
        ok, alone = flushed(v, p, head, parts[at + 1:], t)
        v.decide(FLUSHED, ok, f'{r!r} for {t!r}')
        if ok:
            v.decide(ALONE, alone, f'{r!r}')
    pr.verify('ReStructuredTextEmitter.document_emit', run, obs, models=env.base_models(), contracts=env.base_contracts() | {ReST.emit_node: env.EmitNode()}, budget=120,
              hooks={'new': env.new_object, 'iteration': iteration, 'setattr': replaced})


# ---------------------------------------------------------------- all other elements
def emitted(x, seen=()):
    """how often the emission of a child may be in x"""
    if isinstance(x, S):
        return sum(emitted(y) for y in x.parts)
    if isinstance(x, Atom):
        o = x.origin
        if o[0] == 'emit':
            return 1
        if o[0] in ('join', 'joinl', 'joinr'):
            return emitted(o[2]) + 2 * emitted(o[1])
        if o[0] == 'acc':
            return max([sum(emitted(y) for y in (a if isinstance(a, (tuple, list)) else [a])) for a in o[1]], default=0)
        if o[0] == 'repeat':
            return sum(2 * emitted(y) for y in o[1:] if isinstance(y, (S, Atom)))
        return sum(emitted(y) for y in o[1:] if isinstance(y, (S, Atom, Seg, SList, tuple, list)))
    if isinstance(x, Seg):
        if x.kind == 'loop':
            return max([sum(emitted(y) for y in a) for a in x.alts or ()], default=0)
        return sum(emitted(y) for y in (x.src if isinstance(x.src, tuple) else ()) if isinstance(y, (S, Atom, Seg)))
    if isinstance(x, SList):
        return sum(emitted(y) for y in x.items)
    if isinstance(x, (tuple, list)):
        return sum(emitted(y) for y in x)
    return 0


def twice(x):
    """the same emission stands twice in the text"""
    ids = [y.rid for y in parts_of(x) if isinstance(y, Atom) and emitted(y)]
    return len(ids) != len(set(ids))


def other(pr, kind, handler=None):
    label = f'ReStructuredTextEmitter.emit_node[{kind or "any other: " + handler}]'
    obs = [FRAME, ONCE]

    def frame(v, em):
        v.decide(FRAME, *arbitrary(em))

    def run(v):
        p = v.path
        em = env.any_emitter(v, 'rest', debug=False, handler=handler or 'transparent_unknown_nodes')
        if any(k not in em.fields for k in STATE):
            raise Unsupported('the emitter has another state')
        node = env.arb(p, kind=kind)
        if kind is None:
            node.fields['kind'] = p.atom('kind', env.TAG - A.words(tuple(c08.kinds('rest'))), ('kind', node))
        p.extra['before_emit'] = lambda interp, e: frame(v, e)
        mark = len(p.log)
        r, e = run_emit(v, em, node)
        if e is not None:
            v.decide(FRAME, child_raised(e, v) or handler == 'raise_unknown_node' and e.cls is NotImplementedError or None, f'{e.cls.__name__} ({v.where()})')
            return
        frame(v, em)
        if not is_str(r):
            v.decide(ONCE, False, f'{r!r}')
            return
        new, _clean = c09.appended(p, mark)
        cells = [x for _l, x in new if is_str(x)]

        def later():
            n = emitted(r) + sum(emitted(x) for x in cells)
            return n <= 1, f'{r!r} {cells!r}', twice(r) and any(emitted(S((a,))) and not a.lang <= A.EPS for a in parts_of(r) if isinstance(a, Atom))
        v.require(ONCE, later)

    def iteration(interp):
        frame(interp.path.run, interp.path.extra['emitter'])
    verify(pr, label, run, obs, hooks={'iteration': iteration})


# ---------------------------------------------------------------- the targets
def target(pr, handler, tag, attr):
    """the node of a link or an image has the target of the tag"""
    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        url = None if p.choose(2, 'no value') else p.atom('url')

        def pair(i, q):
            return (q.atom('attrname', A.ALL - A.lit(attr)), None if q.choose(2, 'attribute without value') else q.atom('attrvalue'))
        others = [Seg('src', elem=pair, name='attrs') for _ in range(2)]
        attrs = p.slist([others[0], (attr, url), others[1]])
        mark = len(p.reg)
        try:
            v.call(v.interp.getattr(ps, handler), tag, attrs)
        except TExc as e:
            v.decide(TARGET, None, f'{e.cls.__name__} ({v.where()})')
            return
        made = [o for o in p.reg[mark:] if isinstance(o, Obj) and o.cls is DocNode and o.fields.get('kind') == tag]
        if len(made) != 1:
            v.decide(TARGET, None, f'{made!r}')
            return
        d = made[0].fields['attrs']
        if not isinstance(d, SDict):
            v.decide(TARGET, None, f'{d!r}')
            return
        v.decide(TARGET, models.dict_has(v.interp, d, attr), 'the attribute is lost')
        v.same(TARGET, models.dict_get(v.interp, d, attr), '' if url is None else url)
    pr.verify(f'HtmlParser.{handler}[{tag}]', run, [TARGET], models=env.parser_models(), hooks={'new': env.new_node}, budget=150)


# ---------------------------------------------------------------- the start
class Emitted:
    """the emission of the document, in the state that it is started in"""
    name = 'emit_node'

    def apply(self, interp, p, args, kwargs):
        f = args[0].fields
        p.extra['seen'].append(args[0])
        ok = all(isinstance(f.get(k), SDict) and not f[k].d and f[k].sym is None for k in (LINKS, IMAGES)) and isinstance(f.get(PENDING), SList) and not f[PENDING].items
        p.run.decide(START, ok and len(p.extra['seen']) == 1 or (None if any(k not in f for k in STATE) else False), f'{[f.get(k) for k in STATE]!r}')
        p.extra['whole'] = p.atom('document')
        return p.extra['whole']


def start(pr):
    def run(v):
        p = v.path
        seen = p.extra['seen'] = []

        try:
            r = v.call(creole.html2rest, p.atom('html'))
        except TExc as e:
            v.decide(RESULT, None, f'{e.cls.__name__}')
            return
        if not seen:
            raise Unsupported('the document is emitted in another way')
        v.decide(RESULT, is_str(r) and key_of(r) == key_of(v.call(v.interp.getattr(p.extra['whole'], 'rstrip'))) or None, f'{r!r}')
    pr.verify('html2rest', run, [START, RESULT], models=env.base_models(), contracts=env.base_contracts() | {ReST.emit_node: Emitted()}, budget=150, hooks={'new': env.new_object})
