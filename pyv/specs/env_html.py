"""Tree invariant of the html document tree (HtmlParser), arbitrary emitters of the html converters and the contract
of their recursive emit_node."""
import urllib.parse
from html.parser import HTMLParser

from creole.emitter.html2creole_emitter import CreoleEmitter
from creole.emitter.html2markdown_emitter import MarkdownEmitter
from creole.emitter.html2rest_emitter import ReStructuredTextEmitter
from creole.emitter.html2textile_emitter import TextileEmitter
from creole.html_tools.deentity import Deentity
from creole.parser.html_parser import HtmlParser
from creole.shared import unknown_tags
from creole.shared.base_emitter import BaseEmitter
from creole.shared.document_tree import DocNode
from creole.shared.markup_table import MarkupTable

from .. import automata as A
from .. import models
from ..interp import MISSING
from ..values import S, SI, Builtin, Obj, Opaque, PathEnd, Pending, SDict, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, rope

EMITTERS = {'creole': CreoleEmitter, 'markdown': MarkdownEmitter, 'rest': ReStructuredTextEmitter, 'textile': TextileEmitter}
CONTENT_KINDS = ('data', 'charref', 'entityref', 'blockdata_pre', 'blockdata_pass', 'inlinedata_pre')
VOID = ('br', 'hr', 'img')    # never the open element
INTERNAL = ('document', 'headline') + CONTENT_KINDS
LISTS = ('li', 'ul', 'ol')
HANDLERS = {f.__name__: f for f in (unknown_tags.transparent_unknown_nodes, unknown_tags.escape_unknown_nodes, unknown_tags.use_html_macro,
                                    unknown_tags.preformat_unknown_nodes, unknown_tags.raise_unknown_node)}


TAG = A.rx(r'[a-z][^\t\n\r\f />]*')
KIND = TAG | A.words(CONTENT_KINDS)
CHARREF = A.rx(r'[0-9]+|[xX][0-9a-fA-F]+')
ENTITYREF = A.rx(r'[a-zA-Z][-.a-zA-Z0-9]*')


def kind_in(p, o, ws):
    k = o.fields.get('kind', MISSING)
    if k is MISSING:
        k = o.fields['kind'] = lazy(p, o, 'kind')
    if isinstance(k, str):
        return k in ws
    return p.fork_lang(atom_of(k), A.words(tuple(sorted(ws))), 'kind')


def internal(p, o):
    """the node is made by the parser itself (not a tag of that name)"""
    if 'internal' not in o.meta:
        if not kind_in(p, o, INTERNAL):
            o.meta['internal'] = False
        elif kind_in(p, o, ('document',)):
            o.meta['internal'] = bool(o.meta.get('root'))
        else:
            o.meta['internal'] = p.choose(2, 'internal') == 0
    return o.meta['internal']


class Attrs:
    """attributes of a tag: str -> str"""

    def has(self, interp, p, d, k):
        return None

    def value(self, interp, p, d, k):
        return p.atom('attr', A.ALL, ('attr', d, k))

    def key(self, interp, p, d):
        return p.atom('attrname')


def lazy(p, o, name):
    if name == 'kind':
        return p.atom('kind', KIND, ('kind', o))
    if name == 'content':
        if not internal(p, o) or not kind_in(p, o, CONTENT_KINDS):
            return None
        L = A.ALL
        if kind_in(p, o, ('charref',)):
            L = CHARREF
        elif kind_in(p, o, ('entityref',)):
            L = ENTITYREF
        return p.atom('content', L, ('content', o))
    if name == 'children':
        if internal(p, o) and kind_in(p, o, CONTENT_KINDS) or p.extra.get('void') and kind_in(p, o, VOID):
            return p.slist([])
        return p.slist([Seg('src', elem=lambda i, pp: child_of(pp, o), name='children', src=('children', o))], meta={'children_of': o})
    if name == 'level':
        if internal(p, o) and kind_in(p, o, ('headline',)):
            return p.int('level', 1, 6)
        if kind_in(p, o, LISTS):
            return p.int('level', 0)
        return None
    if name == 'attrs':
        if internal(p, o):
            return p.sdict()
        return p.sdict({}, Attrs())
    if name == 'parent':
        if o.meta.get('root'):
            return None
        return above(p) if o.meta.get('above') else any_node(p)
    return MISSING


class Fresh:
    """any node below the root"""

    def __call__(self, p):
        return arb(p)

    def __eq__(self, o):
        return isinstance(o, Fresh)

    def __hash__(self):
        return 11


class RootFresh:
    def __init__(self, rid):
        self.rid = rid

    def __call__(self, p):
        o = p.reg[self.rid]
        if not (isinstance(o, Obj) and o.meta.get('root')):
            raise Unsupported('the root of another tree')
        return o

    def __eq__(self, o):
        return isinstance(o, RootFresh) and o.rid == self.rid

    def __hash__(self):
        return 19


class AboveFresh:
    def __call__(self, p):
        return above(p)

    def __eq__(self, o):
        return isinstance(o, AboveFresh)

    def __hash__(self):
        return 29


def above(p):
    """the element that was open at first, or any element around it"""
    if p.choose(2, 'root') == 0:
        return p.extra['root']
    o = arb(p)
    o.meta['above'] = True
    o.meta['fresh'] = AboveFresh()
    return o


def any_node(p):
    """the root or another node"""
    root = p.extra.get('root')
    if root is not None and p.choose(2, 'root') == 0:
        return root
    return arb(p)


def arb(p, kind=None, parent=MISSING, is_internal=None):
    o = p.obj(DocNode, {}, lazy, {'arbitrary': True, 'fresh': Fresh(), 'root': False}, name=kind or 'node')
    if kind is not None:
        o.fields['kind'] = kind
    if is_internal is not None:
        o.meta['internal'] = is_internal
    if parent is not MISSING:
        o.fields['parent'] = parent
    return o


def child_of(p, o):
    return arb(p, parent=o)


def root_node(p):
    o = arb(p, kind='document', parent=None)
    o.meta['root'] = True
    o.meta['internal'] = True
    o.meta['fresh'] = RootFresh(o.rid)
    p.extra['root'] = o
    return o


# ---------------------------------------------------------------- emitters
def any_emitter(v, which, root=None, debug=None, handler='transparent_unknown_nodes'):
    """an emitter in any state of emit(): __init__ is interpreted, then its state is havocked"""
    p = v.path
    root = root or root_node(p)
    kw = {}
    if which in ('creole', 'markdown'):
        kw['strict'] = p.bool('strict')
    if debug is None:
        debug = p.debug()
    em = v.call(EMITTERS[which], root, debug=debug, unknown_emit=HANDLERS[handler] if handler else None, **kw)
    p.extra['emitter'] = em
    havoc(p, em, first=True)
    return em


class TableFresh:
    """an arbitrary MarkupTable"""

    def __call__(self, p):
        return any_table(p)

    def __eq__(self, o):
        return isinstance(o, TableFresh)

    def __hash__(self):
        return 13


def any_table(p, prefix=None):
    t = p.obj(MarkupTable, {}, None, {'fresh': TableFresh(), 'refresh': havoc_table}, name='table')
    t.fields['head_prefix'] = p.atom('head_prefix') if prefix is None else prefix
    t.fields['auto_width'] = p.bool('auto_width')
    t.fields['debug_msg'] = p.opaque('debug_msg', Quiet())
    havoc_table(p, t)
    return t


def havoc_table(p, t):
    """class invariant of MarkupTable: rows is a list of lists of str; row_index is None when there is no row, else the
    index of the last one"""
    p.log.append(('r', t, None, None))
    if p.choose(2, 'rows') == 0:
        t.fields['rows'] = p.slist([])
        t.fields['row_index'] = None
    else:
        t.fields['rows'] = p.slist([Seg('src', elem=lambda i, pp: any_row(pp), name='rows'), any_row(p)])
        t.fields['row_index'] = models.mkint(models.zint(models.length(p.run.interp, t.fields['rows'])) - 1)
    t.fields['has_header'] = p.bool('has_header')


def any_row(p):
    return p.slist([Seg('src', elem=lambda j, q: q.atom('cell'), name='cells')])


def new_object(interp, o):
    if o.cls is MarkupTable:
        o.meta['refresh'] = havoc_table


class Quiet:
    notnone = True

    def call(self, interp, p, o, args, kwargs):
        return None

    def callable(self, interp, p, o):
        return True


class NodeFresh:
    def __call__(self, p):
        return any_node(p)

    def __eq__(self, o):
        return isinstance(o, NodeFresh)

    def __hash__(self):
        return 17


MARKS = A.chars_star(A.cs_chars('*#'))
SAVED = ('_inner_list', '_table', '_list_markup', 'root', 'strict', 'deentity', '_unknown_emit', 'debugging', '_mask_linebreak', 'table_head_prefix', 'table_auto_width')


def havoc(p, em, first=False):
    """what an emission may change; with first: the arbitrary state at the start of an emission, too"""
    f = em.fields

    def put(k, val):
        val = models.outlives(p, em, k, val)
        p.log.append(('f', em, k, f.get(k)))
        f[k] = val
    put('last', Pending(['none', ('obj', NodeFresh(), DocNode)], None))
    if first:
        put('_inner_list', p.atom('inner_list', MARKS))
        put('_table', None if p.choose(2, 'table') else any_table(p))
        if '_list_markup' in f:
            put('_list_markup', p.atom('list_markup', A.words(('', '*', '#.'))))
    elif isinstance(f.get('_table'), Obj):
        havoc_table(p, f['_table'])
    if '_substitution_data' in f:
        em.meta['invariants'] = {'_substitution_data': (substitutions, strings), '_used_substitution_links': (used, is_used), '_used_substitution_images': (used, is_used)}
        put('_substitution_data', substitutions(p))
    for k in ('_used_substitution_links', '_used_substitution_images'):
        if k in f:
            put(k, used(p))


def substitutions(p):
    return p.slist([Seg('src', elem=lambda i, pp: pp.atom('substitution'), name='substitutions')])


def strings(v):
    """a list of str"""
    if not isinstance(v, SList) or v.kind != 'list':
        return False
    for x in v.items:
        if isinstance(x, Seg):
            if not (x.kind == 'src' and x.name == 'substitutions' or x.kind == 'loop' and all(is_str(y) for alt in x.alts for y in alt)):
                return False
        elif not is_str(x):
            return False
    return True


def used(p):
    return p.sdict({}, Used())


def is_used(v):
    """a dict of str -> str"""
    return isinstance(v, SDict) and all(is_str(k) and is_str(x) for k, x in v.d.items())


class Used:
    def has(self, interp, p, d, k):
        return None

    def value(self, interp, p, d, k):
        return p.atom('usedurl', A.ALL, ('used', d, k))

    def key(self, interp, p, d):
        return p.atom('usedtext')


class EmitNode:
    """contract of emit_node(child): a str; keeps the list markers and the table; may add cells to the table,
    substitutions and links"""
    name = 'emit_node'

    def __init__(self, first=None):
        self.first = first

    def apply(self, interp, p, args, kwargs):
        em, node = args[0], args[1] if len(args) > 1 else kwargs.get('node')
        first = p.extra.get('first_node')
        if first is not None and node is first and not p.extra.get('emitted'):
            p.extra['emitted'] = True
            return NotImplemented
        if not (isinstance(node, Obj) and node.cls is DocNode):
            raise Unsupported('emit_node of something that is not a DocNode')
        before(interp, p, em)
        p.trace.append(('emit', node))
        havoc(p, em)
        may_raise(interp, p, em)
        el = p.extra.get('elems', ())
        return p.derived('emit', [node], A.ALL, tags=('emit', 'elem') if el and (el[-1][1] is node or isinstance(el[-1][1], tuple) and any(y is node for y in el[-1][1])) else ('emit',))


def may_raise(interp, p, em):
    from creole.emitter import html2rest_emitter
    if em.cls is ReStructuredTextEmitter and p.choose(2, 'Html2restException') == 1:
        interp.throw(html2rest_emitter.Html2restException, 'two targets')


def before(interp, p, em):
    h = p.extra.get('before_emit')
    if h:
        h(interp, em)


def replace_all(interp, p, d, content):
    """contract of Deentity.replace_all (C12)"""
    if not is_str(content):
        interp.throw(TypeError, 'expected string or bytes-like object')
    return p.derived('deentity', [content], A.ALL)


def markup(interp, p, t):
    """contract of the renderings of MarkupTable: a str (C11)"""
    return p.atom('table_markup')


def urlparse(interp, p, url):
    if not is_str(url):
        raise Unsupported('urlparse')
    if p.choose(2, 'urlparse') == 1:
        interp.throw(ValueError, 'Invalid URL')
    return tuple(p.atom(n, A.ALL, ('urlparse', url, n)) for n in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment'))


def quote(interp, p, s):
    if not is_str(s):
        raise Unsupported('quote')
    if p.choose(2, 'surrogates') == 1:
        interp.throw(UnicodeEncodeError, 'utf-8', s, 0, 1, 'surrogates not allowed')
    return p.derived('quote', [s], A.ALL)


def parse_result(interp, p, *a):
    if len(a) != 6 or not all(is_str(x) for x in a):
        raise Unsupported('ParseResult')
    return tuple(a)


def urlunparse(interp, p, t):
    if not isinstance(t, tuple) or len(t) != 6:
        raise Unsupported('urlunparse')
    return p.derived('urlunparse', list(t), A.ALL)


def std_feed(interp, p, self, data):
    return None


def parser_init(interp, p, self, *a, **kw):
    interp.setattr(self, 'convert_charrefs', kw.get('convert_charrefs', True))


class Feed:
    """contract of HtmlParser.feed: a tree with the invariant"""
    name = 'HtmlParser.feed'

    def apply(self, interp, p, args, kwargs):
        if len(args) < 2 or not is_str(args[1]):
            interp.throw(AssertionError, 'feed data must be unicode!')
        old = p.extra.get('root')
        r = root_node(p)
        r.meta['of'] = key_of(args[1])
        if old is not None:
            p.extra['root'] = old
        return r


class GetText:
    """contract of MarkdownEmitter._get_text: a str"""
    name = '_get_text'

    def apply(self, interp, p, args, kwargs):
        if p.extra.get('get_text') is args[1]:
            p.extra['get_text'] = None
            return NotImplemented
        havoc(p, args[0])
        return p.derived('get_text', [args[1]], A.ALL)


class Substitution:
    """contract of _should_do_substitution(node), node below the root: a bool"""
    name = '_should_do_substitution'

    def apply(self, interp, p, args, kwargs):
        if p.extra.get('substitution') is args[1]:
            p.extra['substitution'] = None
            return NotImplemented
        if args[1] is args[0].fields['root']:
            interp.throw(AttributeError, "'NoneType' object has no attribute 'kind'")
        return p.bool('substitution')


def base_contracts():
    res = {}
    for cls, name, c in ((HtmlParser, 'feed', Feed()), (MarkdownEmitter, '_get_text', GetText()), (ReStructuredTextEmitter, '_should_do_substitution', Substitution())):
        if hasattr(cls, name):
            res[getattr(cls, name)] = c
    return res


def base_models():
    return {urllib.parse.urlparse: urlparse, urllib.parse.quote: quote, urllib.parse.ParseResult: parse_result, urllib.parse.urlunparse: urlunparse,
            HTMLParser.__init__: parser_init, Deentity.replace_all: replace_all, MarkupTable.get_table_markup: markup, MarkupTable.get_rest_table: markup,
            MarkupTable.get_markdown_table: markup}


# ---------------------------------------------------------------- the parser
CLEAN_TAG = TAG


def some_tag(p):
    return p.atom('tag', TAG)


def some_attrs(p):
    def pair(i, pp):
        return (pp.atom('attrname'), None if pp.choose(2, 'attribute without value') == 1 else pp.atom('attrvalue'))
    return p.slist([Seg('src', elem=pair, name='attrs')])


ARGS = {'tag': some_tag, 'attrs': some_attrs, 'data': lambda p: p.atom('data'), 'charref': lambda p: p.atom('charref', CHARREF),
        'entityref': lambda p: p.atom('entityref', ENTITYREF)}
LEVEL = '_HtmlParser__list_level'


def any_html_parser(v):
    """a parser in any state of feed(): __init__ is interpreted, then its state is havocked"""
    p = v.path
    ps = v.call(HtmlParser)
    p.extra['parser'] = ps
    root = root_node(p)
    for n, x in list(ps.fields.items()):
        if isinstance(x, Obj) and x.cls is DocNode and x.fields.get('kind') == 'document':
            x.meta['replaced'] = True
            ps.fields[n] = root
    havoc_html_parser(p, ps)
    return ps


def blocks(p):
    return p.slist([Seg('src', elem=lambda i, pp: pp.atom('block'), name='blockdata')])


def is_blocks(v):
    return isinstance(v, SList) and v.kind == 'list' and all(
        (x.name == 'blockdata' and x.kind == 'src' or x.kind == 'loop' and all(is_str(y) for alt in x.alts for y in alt)) if isinstance(x, Seg) else is_str(x)
        for x in v.items)


def havoc_html_parser(p, ps):
    f = ps.fields
    ps.meta['invariants'] = {'blockdata': (blocks, is_blocks)}

    def put(k, val):
        val = models.outlives(p, ps, k, val)
        p.log.append(('f', ps, k, f.get(k)))
        f[k] = val
    put('cur', above(p))
    put('blockdata', blocks(p))
    if LEVEL in f:
        put(LEVEL, p.int('list_level', 0))


def new_node(interp, o):
    if o.cls is DocNode:
        o.meta['fresh'] = NodeFresh()


def same_str(p, L, c):
    from ..explore import lang_of
    return (lang_of(c) - L).empty()


def node_problem(p, o):
    """how a node made by the parser violates the invariant of the tree (as the emitters assume it), or None"""
    f = o.fields
    for n in ('kind', 'content', 'children', 'level', 'attrs', 'parent'):
        if n not in f:
            return f'no {n}'
    k, c, lv = f['kind'], f['content'], f['level']
    if not is_str(k):
        return f'kind {k!r}'
    from ..explore import lang_of
    L = lang_of(k)
    made = k == 'document' and p.extra.get('root') is o or c is not None or k == 'headline' and lv is not None
    if not made:
        if not (L - TAG).empty():
            return f'kind {k!r}'
    elif c is not None:
        if not is_str(c) or not isinstance(k, str) or k not in CONTENT_KINDS:
            return f'content {c!r} of {k!r}'
        if k == 'charref' and not same_str(p, CHARREF, c) or k == 'entityref' and not same_str(p, ENTITYREF, c):
            return f'content {c!r} of {k!r}'
        if lv is not None:
            return f'level {lv!r} of {k!r}'
    if k == 'headline' and made:
        if isinstance(lv, bool) or not isinstance(lv, (int, SI)) or not p.entails(models.z3.And(models.zint(lv) >= 1, models.zint(lv) <= 6)):
            return f'level {lv!r} of {k!r}'
    elif not (L & A.words(LISTS)).empty():
        if not (L <= A.words(LISTS)):
            return f'kind {k!r} with level {lv!r}'
        if isinstance(lv, bool) or not isinstance(lv, (int, SI)) or not p.entails(models.zint(lv) >= 0):
            return f'level {lv!r} of {k!r}'
    elif lv is not None:
        return f'level {lv!r} of {k!r}'
    par = f['parent']
    if p.extra.get('root') is o:
        if par is not None:
            return 'parent of the document'
    else:
        if not (isinstance(par, Obj) and par.cls is DocNode):
            return f'parent {par!r}'
        ch = par.fields.get('children')
        if not isinstance(ch, SList) or sum(x is o for x in ch.items) != 1:
            return 'not once in the children of its parent'
    if not isinstance(f['attrs'], SDict):
        return f'attrs {f["attrs"]!r}'
    for a, b in f['attrs'].d.items():
        if not is_str(a) or not is_str(b):
            return f'attrs {f["attrs"]!r}'
    s = f['attrs'].sym
    if s is not None and not isinstance(s, Attrs):
        a = s.key(p.run.interp, p, f['attrs'])
        b = s.value(p.run.interp, p, f['attrs'], a)
        if not is_str(a) or not is_str(b):
            return f'attribute {a!r}: {b!r}'
    if not isinstance(f['children'], SList):
        return f'children {f["children"]!r}'
    for x in f['children'].items:
        if isinstance(x, Seg) and x.name == 'parsed':
            continue
        if isinstance(x, Seg) or not (isinstance(x, Obj) and x.cls is DocNode and x.fields.get('parent') is o):
            return f'child {x!r}'
    return None


def check_html(v, ps, mark):
    """the parser and every node that it made or changed satisfy the invariant again"""
    p = v.path
    if not v.feasible():
        return
    made = [o for o in p.reg if isinstance(o, Obj) and o.cls is DocNode and not o.meta.get('arbitrary') and not o.meta.get('replaced')]
    for o in made:
        msg = node_problem(p, o)
        if msg:
            v.require('tree invariant', False, f'{msg} ({v.where()})')
    for ent in p.log[mark:]:
        if ent[0] == 'f' and isinstance(ent[1], Obj) and ent[1].cls is DocNode and ent[1].meta.get('arbitrary'):
            v.decide('tree invariant', None, f'{ent[2]} of an existing node is written')
        if ent[0] == 'l' and ent[1].meta.get('children_of') is not None:
            new = ent[1].items
            old = ent[3]
            if old is not None and (len(new) < len(old) or any(a is not b for a, b in zip(old, new))):
                v.decide('tree invariant', None, 'children of an existing node are removed')
            elif any(not isinstance(x, Seg) and not (isinstance(x, Obj) and x.cls is DocNode and x.fields.get('parent') is ent[1].meta['children_of']) for x in new):
                v.require('tree invariant', False, f'children {new!r}')
    v.require('tree invariant', True)
    cur = ps.fields.get('cur')
    v.require('parser invariant', isinstance(cur, Obj) and cur.cls is DocNode, f'cur is {cur!r} ({v.where()})')
    if isinstance(cur, Obj) and cur in made and cur is not p.extra.get('root') and not kind_may_be_open(cur):
        v.require('parser invariant', False, f'cur is {cur!r}')
    v.require('parser invariant', is_blocks(ps.fields.get('blockdata')), f'blockdata is {ps.fields.get("blockdata")!r}')
    if LEVEL in ps.fields:
        lv = ps.fields[LEVEL]
        if isinstance(lv, (int, SI)) and not isinstance(lv, bool):
            v.require('parser invariant', models.zint(lv) >= 0, 'list level')
        else:
            v.require('parser invariant', False, f'list level {lv!r}')
    n = unknown_state(p, ps, ('cur', 'blockdata', LEVEL), mark) if mark else None
    if n:
        v.decide('parser invariant', None, f'the arbitrary state does not have {n}')
    r = ps.fields.get('root')
    v.require('parser invariant', r is p.extra.get('root'), f'root is {r!r}')


def unknown_state(p, o, known, mark):
    """a field of o that is written although the arbitrary state does not describe it"""
    for ent in p.log[mark:]:
        if ent[0] == 'f' and ent[1] is o and ent[2] not in known:
            return ent[2]
    return None


STATE = ('last', '_inner_list', '_table', '_list_markup', '_substitution_data', '_used_substitution_links', '_used_substitution_images')


def kind_may_be_open(o):
    return o.fields.get('content') is None


def grow_tree(p, ps):
    """any number of handler calls: they keep the invariant and add nodes"""
    root = ps.fields['root']
    ch = p.run.interp.getattr(root, 'children')
    p.log.append(('l', ch, None, list(ch.items)))
    ch.meta['children_of'] = root
    ch.items.append(Seg('src', elem=lambda i, pp: child_of(pp, root), name='parsed', src=('parsed', root)))
    havoc_html_parser(p, ps)


def html_feed(interp, p, self, data):
    if not is_str(data):
        interp.throw(TypeError, 'must be str')
    v = p.run
    p.trace.append(('feed', data))
    check_html(v, self, 0)
    grow_tree(p, self)


def html_close(interp, p, self):
    p.trace.append(('close',))
    check_html(p.run, self, len(p.log))
    grow_tree(p, self)


def strip_html_model(interp, p, html):
    """contract of strip_html (C13): a str for a str"""
    if not is_str(html):
        interp.throw(AttributeError, 'strip')
    return p.derived('strip_html', [html], A.ALL)


def cut_contract(interp, p, self, m):
    havoc_html_parser(p, self)


def parser_models():
    from creole.html_tools.strip_html import strip_html
    m = {HTMLParser.__init__: parser_init, strip_html: strip_html_model, HTMLParser.feed: html_feed, HTMLParser.close: html_close,
         HTMLParser.getpos: lambda i, p, self: (p.int('line', 1), p.int('column', 0)), HTMLParser.get_starttag_text: lambda i, p, self: p.atom('starttag_text')}
    return m
