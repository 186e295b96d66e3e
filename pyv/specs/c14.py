"""C14: the handlers of unknown tags keep the content and treat the tag as chosen.

emit_node of every emitter, for every tag that it has no method for (also tags with the name of an internal node kind),
every attribute list and every handler: the result is the tag text of the handler around the concatenation of the
emissions of all children."""
import xml.sax.saxutils

from creole.shared import utils
from creole.shared.document_tree import DocNode

from .. import automata as A
from ..explore import canon
from .. import models
from ..values import S, Obj, SDict, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, parts_of, rope
from . import c08, project
from . import env_html as env

MACRO = {'use_html_macro': 'html', 'preformat_unknown_nodes': 'pre'}
NOTHING = A.cs_norm([])
D_CONTENT = A.cs_norm(A.SPACE + A.cs_chars('\\'))  # the line breaks of transparent elements


def prove(pr):
    calls = []
    for w in env.EMITTERS:

        for h in (None, *env.HANDLERS):
            calls.append((unknown, (w, h, None)))
            for k in env.INTERNAL:
                calls.append((unknown, (w, h, k)))


    calls += [(children, (w,)) for w in env.EMITTERS] + [(attributes, ())]
    calls += [(own, (w, k)) for w in env.EMITTERS for k in (None, *c08.kinds(w))]
    calls += [(handed, (h,)) for h in ('handle_starttag', 'handle_startendtag')]
    pr.units(calls)
    pr.trust('json.dumps, xml.sax.saxutils.escape', 'interpreted or modelled as documented')


class Dict2String:
    name = 'dict2string'

    def apply(self, interp, p, args, kwargs):
        return p.derived('dict2string', [args[0]], env.A.ALL)


def contracts(cls):
    return env.base_contracts() | {cls.emit_node: env.EmitNode(), utils.dict2string: Dict2String()}


def expected(p, v, handler, node):
    """what the handler has to write: (text for an element without content, start tag, end tag)"""
    attrs = p.derived('dict2string', [node.fields['attrs']], A.ALL) if 'attrs' in node.fields else ''
    kind = node.fields['kind']
    if is_str(attrs) and v.interp.truth(attrs):
        attrs = rope(' ', attrs)
    else:
        attrs = ''

    def tag(t):
        if handler == 'escape_unknown_nodes':
            return v.call(xml.sax.saxutils.escape, t)
        m = MACRO[handler]
        return rope(f'<<{m}>>', t, f'<</{m}>>')
    return tag(rope('<', kind, attrs, ' />')), tag(rope('<', kind, attrs, '>')), tag(rope('</', kind, '>'))


def unknown(pr, which, handler, kind):
    cls = env.EMITTERS[which]
    label = f'{cls.__name__}.emit_node[{"<" + kind + ">" if kind else "unknown tag"}: {handler or "default"}]'
    obs = ['result']

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False, handler=handler)
        node = env.arb(p, kind=kind, is_internal=False)
        if kind is None:
            ks = c08.kinds(which)
            node.fields['kind'] = p.atom('kind', env.TAG - A.words(tuple(set(ks) | set(env.INTERNAL))), ('kind', node))
        v.interp.getattr(node, 'attrs')
        p.extra['first_node'] = node
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
        except TExc as e:
            v.require('result', handler == 'raise_unknown_node' and e.cls is NotImplementedError or which == 'rest' and e.cls.__name__ == 'Html2restException',
                      f'{e.cls.__name__} ({v.where()})')
            return
        if handler == 'raise_unknown_node':
            v.require('result', False, 'NotImplementedError is not raised')
            return
        if not is_str(r):
            v.require('result', False, f'{r!r}')
            return
        if handler in (None, 'transparent_unknown_nodes'):
            v.require('result', lambda: whole(p, r, node))
            return
        # the content is the piece that is the concatenation of the emissions of the children
        want = expected(p, v, handler, node)
        v.require('result', lambda: tagged(p, r, node, *want))
    pr.verify(label, run, obs, models=env.base_models(), contracts=contracts(cls), hooks={'new': env.new_object, 'iteration': project.pieces_hook(D_CONTENT)}, budget=120)


def whole(p, r, node):
    k = project.keep(r, D_CONTENT)
    if k == [('children', node.rid)]:
        return True, ''
    if k == [] and project.known_blank(p, node, D_CONTENT):
        return True, ''
    return False, f'{r!r} instead of the content', not_children(p, k)


def not_children(p, k):
    """definite when something that is no emission comes out, or the content comes not once"""
    if project.incomplete(p, k):
        return True
    return bool(k) and all(isinstance(x, str) or isinstance(x, tuple) for x in k)


def tagged(p, r, node, empty, start, end):
    ps = parts_of(r)
    idx = [i for i, x in enumerate(ps) if not isinstance(x, str) and project.children(x, NOTHING) is node]
    if not idx:
        if key_of(canon(r)) in (key_of(canon(empty)), key_of(canon(rope(start, end)))):
            return project.known_blank(p, node, NOTHING), f'{r!r}: the content is missing', project.blank_tested(p, node)
        part = project.incomplete(p, [x.rid for x in ps if not isinstance(x, str)])
        return False, f'{r!r} instead of {empty!r}', part or not any(not isinstance(x, str) and x.origin[0] in ('acc', 'join', 'resub') for x in ps)
    if len(idx) > 1:
        return False, f'the content comes {len(idx)} times: {r!r}', True
    want = rope(start, S((ps[idx[0]],)), end)
    if key_of(canon(r)) == key_of(canon(want)):
        return True, '', True
    return False, f'{r!r} instead of {want!r}', True


def children(pr, which):
    """emit_children: the emissions of all children, each once, in order"""
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False)
        node = env.arb(p)
        p.extra['first_node'] = None
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit_children'), (node,), {})
        except TExc as e:
            v.decide('result', which == 'rest' and e.cls.__name__ == 'Html2restException' or None, f'{e.cls.__name__} ({v.where()})')
            return
        if env.internal(p, node) and env.kind_in(p, node, env.CONTENT_KINDS):
            v.require('result', r == '', f'{r!r}')
            return

        def later():
            if project.keep(r, NOTHING) == [('children', node.rid)] or r == '' and project.known_blank(p, node, NOTHING):
                return True, ''
            return False, f'{r!r}', False
        v.require('result', later)
    pr.verify(f'{cls.__name__}.emit_children', run, ['result'], models=env.base_models(), contracts=contracts(cls), hooks={'new': env.new_object, 'iteration': project.pieces_hook(D_CONTENT)}, budget=150)


class Handler:
    """an unknown_emit of the caller"""
    notnone = True

    def callable(self, interp, p, o):
        return True

    def call(self, interp, p, o, args, kwargs):
        node = args[1] if len(args) > 1 else None
        p.trace.append(('unknown_emit', node))
        return p.atom('handled')


def own(pr, which, kind):
    """a handler of the caller: called for an unknown tag (once, with the emitter and the node), and its result is the
    result; not called for a tag that the emitter knows"""
    cls = env.EMITTERS[which]
    label = f'{cls.__name__}.emit_node[{kind or "unknown tag"}: own handler]'

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False, handler=None)
        h = em.fields['_unknown_emit'] = p.opaque('unknown_emit', Handler())
        node = env.arb(p, kind=kind, is_internal=kind in env.INTERNAL)
        if kind is None:
            ks = c08.kinds(which)
            node.fields['kind'] = p.atom('kind', env.TAG - A.words(tuple(set(ks) | set(env.INTERNAL))), ('kind', node))
        if kind == 'document':
            node = em.fields['root']
        p.extra['first_node'] = node
        n = len(p.trace)
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
        except TExc as e:
            v.decide('handler', which == 'rest' and e.cls.__name__ == 'Html2restException' or None, f'{e.cls.__name__} ({v.where()})')
            return
        calls = [t for t in p.trace[n:] if t[0] == 'unknown_emit']
        if kind is not None:
            v.require('handler', not calls, f'called for <{kind}>')
            return
        v.require('handler', len(calls) == 1 and calls[0][1] is node, f'calls: {calls!r}')
        v.require('handler', is_str(r) and not isinstance(r, str) and atom_of(r) is not None and atom_of(r).name == 'handled', f'{r!r}')
    pr.verify(label, run, ['handler'], models=env.base_models(), contracts=contracts(cls), hooks={'new': env.new_object, 'iteration': project.pieces_hook(D_CONTENT)}, budget=120)


def attributes(pr):
    """dict2string: every item once as name=JSON, in one order"""
    def run(v):
        p = v.path
        d = p.sdict({}, env.Attrs())
        p.extra['d'] = d
        try:
            r = v.call(utils.dict2string, d)
        except TExc as e:
            v.decide('every attribute', None, f'{e.cls.__name__} ({v.where()})')
            return

        def later():
            a = atom_of(r) if not isinstance(r, str) else None
            if a is None or a.origin[0] != 'join' or a.origin[1] != ' ':
                return False, f'{r!r}', False
            seg = a.origin[2]
            src = seg.src
            while isinstance(src, tuple) and src[0] in ('map', 'sorted') and isinstance(src[1], Seg):
                seg = src[1]
                src = seg.src
            return seg is p.memo.get(('ditems', d.rid)), f'{r!r}', False
        v.require('every attribute', later)

    def iteration(interp):
        p = interp.path
        if 'loop_elem' not in p.extra or not isinstance(p.extra['loop_elem'][1], tuple):
            raise Unsupported('another loop')
        k, x = p.extra['loop_elem'][1]
        v = p.run
        v.interp.path.extra['inloop'] = 0
        want = rope(k, '=', interp.call(__import__('json').dumps, (x,), {}))
        new = [y for items in p.extra['loop_new'].values() for y in items]
        if not p.extra['loop_new']:
            return
        if len(new) != 1:
            v.decide('every attribute', not new and False, f'{new!r} for one attribute')
        elif isinstance(new[0], tuple):
            return
        else:
            v.same('every attribute', new[0], want)
    pr.verify('dict2string', run, ['every attribute'], hooks={'iteration': iteration}, budget=150)

    def get(v):
        p = v.path
        node = env.arb(p)
        d = v.interp.getattr(node, 'attrs')
        try:
            r = v.interp.call(v.interp.getattr(node, 'get_attrs_as_string'), (), {})
        except TExc as e:
            v.decide('every attribute', None, f'{e.cls.__name__} ({v.where()})')
            return
        v.same('every attribute', r, p.derived('dict2string', [d], A.ALL))
    pr.verify('DocNode.get_attrs_as_string', get, ['every attribute'], contracts={utils.dict2string: Dict2String()}, budget=150)


# ---------------------------------------------------------------- the attributes that the parser hands over
HANDED = 'the node of an unknown element has each attribute of the tag, with its value'
X_NAMES = A.lit('x') + A.ALL
OTHER_TAG = env.TAG - A.words(('h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'tbody', 'blockdata', 'inlinedata'))


def handed(pr, handler):
    """the parser makes the node of an unknown element with every attribute of the tag"""
    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        tag = p.atom('tag', OTHER_TAG)
        last = p.choose(2, 'the last attribute')
        name = p.atom('name', A.ALL if last else X_NAMES)
        value = None if p.choose(2, 'no value') else p.atom('value')

        def pair(i, q):
            return (q.atom('attrname', A.ALL if last else A.ALL - X_NAMES), None if q.choose(2, 'attribute without value') else q.atom('attrvalue'))
        others = [Seg('src', elem=pair, name='attrs') for _ in range(2 - last)]
        attrs = p.slist([others[0], (name, value)] + others[1:])
        mark = len(p.reg)
        try:
            v.call(v.interp.getattr(ps, handler), tag, attrs)
        except TExc as e:
            v.decide(HANDED, None, f'{e.cls.__name__} ({v.where()})')
            return
        made = [o for o in p.reg[mark:] if isinstance(o, Obj) and o.cls is DocNode and o.fields.get('kind') is tag]
        if len(made) != 1 or not isinstance(made[0].fields.get('attrs'), SDict):
            v.decide(HANDED, None, f'{made!r}')
            return
        d = made[0].fields['attrs']
        has = models.dict_has(v.interp, d, name)
        v.decide(HANDED, has, 'the attribute is lost')
        if not has:
            return
        v.same(HANDED, models.dict_get(v.interp, d, name), '' if value is None else value)
    pr.verify(f'HtmlParser.{handler}[unknown tag]', run, [HANDED], models=env.parser_models(), hooks={'new': env.new_node}, budget=150)
