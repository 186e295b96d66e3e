"""Class invariant of CreoleParser and the contracts of its recursive methods.

Invariant: `cur` is a node of the document tree below `root`, `text` is None or a text node, every node satisfies
the tree invariant of env_creole.py (checked here for every node that a handler makes or changes)."""
import z3

from creole.parser.creol2html_parser import CreoleParser
from creole.parser.creol2html_rules import BlockRules
from creole.shared.document_tree import DocNode

from .. import automata as A
from ..explore import lang_of
from ..interp import MISSING
from ..rematch import Match, new_match
from ..values import S, SI, Builtin, Obj, Opaque, PathEnd, Pending, SDict, Seg, SList, TExc, Unsupported, atom_of, is_str
from . import env_creole as env

INLINE = ('inline_re', 'link_re')


def any_parser(v, blog=True, debug=False):
    """a CreoleParser in any state of parse(): __init__ is interpreted, then its state is havocked"""
    p = v.path
    raw = p.atom('raw')
    ps = v.call(CreoleParser, raw, blog_line_breaks=blog, debug=debug)
    p.extra['parser'] = ps
    made, root = ps.fields.get('root'), env.arb(p, kind='document', parent=None)
    ps.fields['root'] = root
    for n, x in made.fields.items() if isinstance(made, Obj) else ():
        if isinstance(x, (SList, SDict)) and 'real' in x.meta:
            y = v.interp.getattr(root, n)
            if isinstance(y, (SList, SDict)):
                y.meta['real'] = x.meta['real']
    havoc_parser(p, ps)
    return ps


def text_node(p):
    return env.arb(p, kind='text')


class TextFresh:
    def __call__(self, p):
        return text_node(p)

    def __eq__(self, o):
        return isinstance(o, TextFresh)

    def __hash__(self):
        return 7


class CurFresh:
    def __call__(self, p):
        return env.arb(p)

    def __eq__(self, o):
        return isinstance(o, CurFresh)

    def __hash__(self):
        return 8


def set_text(p, ps):
    p.log.append(('f', ps, 'text', ps.fields.get('text')))
    ps.fields['text'] = Pending(['none', ('obj', TextFresh(), DocNode)], None)


def havoc_parser(p, ps):
    p.log.append(('f', ps, 'cur', ps.fields.get('cur')))
    ps.fields['cur'] = env.arb(p)
    ps.fields['last_text_break'] = Pending(['none', ('obj', CurFresh(), DocNode)], None)
    set_text(p, ps)


def new_hook(interp, o):
    """a node made by the code may be generalised to an arbitrary node (the invariant is checked at these points)"""
    if o.cls is DocNode:
        o.meta['fresh'] = CurFresh()


# ---------------------------------------------------------------- the tree invariant as an obligation
def check_node(p, o):
    """-> text that says how the node violates the invariant, or None.  Only materialised fields are looked at."""
    k = o.fields.get('kind', MISSING)
    arbitrary = o.meta.get('arbitrary')
    if k is MISSING:
        if arbitrary:
            k = None
        else:
            return 'no kind'
    if isinstance(k, S):
        if not arbitrary:
            if not (lang_of(k) - A.words(tuple(sorted(env.KINDS)))).empty():
                return f'kind {k!r}'
        ws = lang_of(k).finite_words(40)
        ks = set(ws) if ws is not None else set(env.KINDS)
    elif k is None:
        ks = set(env.KINDS)
    elif isinstance(k, str):
        if k not in env.KINDS:
            return f'unknown kind {k!r}'
        ks = {k}
    else:
        return f'kind {k!r}'
    c = o.fields.get('content', MISSING)
    if c is MISSING and not arbitrary:
        return 'no content'
    if c is not MISSING and not isinstance(c, Pending):
        if ks & set(env.TEXTLIKE) and ks <= set(env.TEXTLIKE) and not is_str(c):
            return f'content of {ks} is {c!r}'
        if ks <= set(env.MACROS) and not (c is None or is_str(c)):
            return f'content of {ks} is {c!r}'
    par = o.fields.get('parent', MISSING)
    if par is MISSING and not arbitrary:
        return 'no parent'
    if par is not MISSING and not isinstance(par, Pending):
        if ks == {'document'} and par is not None:
            return 'parent of the document'
        if 'document' not in ks and not (isinstance(par, Obj) and par.cls is DocNode):
            return f'parent of {ks} is {par!r}'
    lv = o.fields.get('level', MISSING)
    if lv is not MISSING and not isinstance(lv, Pending) and ks <= set(env.LEVEL_KINDS):
        if isinstance(lv, bool) or not isinstance(lv, (int, SI)):
            return f'level of {ks} is {lv!r}'
        lo = 1 if ks == {'header'} else 0
        if isinstance(lv, int) and lv < lo or isinstance(lv, SI) and not p.entails(lv.e >= lo):
            return f'level of {ks} may be {lv!r}'
    if lv is MISSING and not arbitrary and ks <= set(env.LEVEL_KINDS):
        return 'no level'
    if ks <= set(env.MACROS) and not arbitrary:
        n, a = o.fields.get('macro_name'), o.fields.get('macro_args')
        if not is_str(n) or not (lang_of(n) - env.WORD).empty():
            return f'macro_name {n!r}'
        if not is_str(a):
            return f'macro_args {a!r}'
    if not arbitrary and ks == {'pre_block'} and not is_str(o.fields.get('sect')):
        return 'sect'
    ch = o.fields.get('children', MISSING)
    if ch is MISSING and not arbitrary:
        return 'no children'
    if ch is not MISSING:
        if not isinstance(ch, SList):
            return f'children {ch!r}'
        for x in ch.items:
            if isinstance(x, Obj) and x.cls is DocNode:
                if x.fields.get('kind') == 'document':
                    return 'a document as child'
            elif not isinstance(x, Seg):
                return f'child {x!r}'
        if ks == {'image'} and not arbitrary:
            if not ch.items or not (isinstance(ch.items[0], Obj) and ch.items[0].fields.get('kind') == 'text'):
                return 'image without text node'
    if not arbitrary and isinstance(par, Obj) and isinstance(par.fields.get('children'), SList):
        if not any(x is o for x in par.fields['children'].items) and not o.meta.get('removed'):
            if not any(isinstance(x, Seg) for x in par.fields['children'].items):
                return 'the node is not in the children of its parent'
    return None


def check_tree(v, what='tree invariant'):
    p = v.path
    if not v.feasible():
        return
    for o in list(p.reg):
        if isinstance(o, Obj) and o.cls is DocNode:
            msg = check_node(p, o)
            if msg:
                v.require(what, False, f'{msg} ({v.where()})')
    v.require(what, True)


def check_parser(v, ps, what='parser invariant'):
    p = v.path
    if not v.feasible():
        return
    cur = ps.fields.get('cur')
    if not isinstance(cur, Pending) and not (isinstance(cur, Obj) and cur.cls is DocNode):
        v.require(what, False, f'cur is {cur!r} ({v.where()})')
    t = ps.fields.get('text')
    if not isinstance(t, Pending) and t is not None:
        ok = isinstance(t, Obj) and t.cls is DocNode and t.fields.get('kind') == 'text'
        v.require(what, ok, f'text is {t!r} ({v.where()})')
    r = ps.fields.get('root')
    v.require(what, isinstance(r, Obj) and r.cls is DocNode and r.fields.get('kind') == 'document', f'root is {r!r}')


def grow_children(p, node):
    """parse_inline appends nodes to the children of `cur` (and below)"""
    ch = p.run.interp.getattr(node, 'children')
    if not isinstance(ch, SList):
        raise Unsupported('children')
    p.log.append(('l', ch, None, list(ch.items)))
    ch.items.append(Seg('src', elem=lambda i, pp: env.child_of(pp, node), name='parsed', src=('parsed', node)))


class InlineContract:
    """parse_inline(raw): raw is a str; cur is the same node afterwards, its children have grown"""
    name = 'CreoleParser.parse_inline'

    def __init__(self, v):
        self.v = v

    def apply(self, interp, p, args, kwargs):
        ps = args[0]
        raw = args[1] if len(args) > 1 else kwargs.get('raw')
        if not is_str(raw):
            interp.throw(TypeError, 'expected string or bytes-like object')
        check_tree(self.v, 'tree invariant')
        check_parser(self.v, ps)
        p.trace.append(('parse_inline', raw, ps.fields['cur'], ps.fields.get('text')))
        grow_children(p, interp.getattr(ps, 'cur'))
        set_text(p, ps)
        return None


class ReplaceContract:
    """_replace(match) inside re.sub: inline patterns keep cur, block and item patterns leave any state"""
    name = 'CreoleParser._replace'

    def __init__(self, v, first=None):
        self.v = v
        self.first = first

    def apply(self, interp, p, args, kwargs):
        ps, m = args
        if not (isinstance(m, Opaque) and isinstance(m.spec, Match)):
            raise Unsupported('_replace without match')
        if self.first is not None and m is p.extra.get('first') and not p.extra.get('first_done'):
            p.extra['first_done'] = True
            return NotImplemented
        check_tree(self.v, 'tree invariant')
        check_parser(self.v, ps)
        pat = m.spec.w.pat
        if any(pat is getattr(CreoleParser, n) for n in INLINE):
            grow_children(p, interp.getattr(ps, 'cur'))
            set_text(p, ps)
        else:
            havoc_parser(p, ps)
        return None


def pformat_model(interp, p, *a, **kw):
    return p.atom('pformat')


def parser_models():
    from pprint import pformat
    m = env.std_models()
    m[pformat] = pformat_model
    return m
