"""Tree invariant of the creole document tree (established by CreoleParser, relied on by HtmlEmitter), and the
arbitrary values of the creole2html side."""
import z3

from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent
from creole.shared.document_tree import DocNode

from .. import automata as A
from .. import models
from ..interp import MISSING, func_of
from ..loops import seg_elem
from ..values import S, SI, Builtin, Obj, Opaque, PathEnd, Pending, Seg, TExc, Unsupported, atom_of, rope

# kinds of nodes that the parser creates
TEXTLIKE = ('text', 'pre_block', 'pre_inline', 'header', 'link', 'image')
INLINE_MARKS = ('emphasis', 'strong', 'monospace', 'superscript', 'subscript', 'underline', 'small', 'delete')
KINDS = ('document', 'text', 'separator', 'paragraph', 'bullet_list', 'number_list', 'list_item', 'table', 'table_row',
         'table_cell', 'table_head', 'header', 'link', 'image', 'macro_inline', 'macro_block', 'break', 'line',
         'pre_block', 'pre_inline') + INLINE_MARKS
LEVEL_KINDS = ('bullet_list', 'number_list', 'list_item', 'header')
MACROS = ('macro_inline', 'macro_block')
WORD = A.chars(A.category('word')) + A.chars_star(A.category('word'))


def kind_in(p, o, ws):
    """is the kind of the node one of ws? (case distinction)"""
    k = o.fields.get('kind', MISSING)
    if k is MISSING:
        k = o.fields['kind'] = lazy(p, o, 'kind')
    if isinstance(k, str):
        return k in ws
    at = atom_of(k)
    return p.fork_lang(at, A.words(tuple(sorted(ws))), 'kind')


def lazy(p, o, name):
    """fields of an arbitrary node of the tree: nothing but the tree invariant is known"""
    if name == 'kind':
        return p.atom('kind', A.words(tuple(sorted(set(KINDS) - set(o.meta.get('notkinds', ()))))), ('kind', o))
    if name == 'content':
        if kind_in(p, o, TEXTLIKE):
            return p.atom('content', A.ALL, ('content', o))
        if kind_in(p, o, MACROS):
            return None if p.choose(2, 'macro text') else p.atom('content', A.ALL, ('content', o))
        if kind_in(p, o, ('break', 'line')):
            return Pending(['none', ('other', ('str', ''))], '')
        return None
    if name == 'children':
        seg = Seg('src', elem=lambda i, pp: child_of(pp, o), name='children', src=('children', o))
        items = [seg]
        if kind_in(p, o, ('image',)):
            items = [arb(p, kind='text', parent=o), seg]
        return p.slist(items, meta={'children_of': o})
    if name == 'level':
        if kind_in(p, o, LEVEL_KINDS):
            return p.int('level', 1 if kind_in(p, o, ('header',)) else 0)
        return None
    if name == 'parent':
        if kind_in(p, o, ('document',)):
            return None
        return arb(p)
    if name in ('macro_name', 'macro_args'):
        if kind_in(p, o, MACROS):
            return p.atom(name, WORD if name == 'macro_name' else A.ALL, (name, o))
        return MISSING
    if name == 'used_macros':
        if kind_in(p, o, ('document',)):
            return p.slist([Seg('src', elem=lambda i, pp: pp.atom('used', WORD), name='used')], kind='set')
        return MISSING
    if name == 'sect':
        if kind_in(p, o, ('pre_block',)):
            return p.atom('sect')
        return MISSING
    if name == 'attrs':
        return p.sdict()
    return MISSING


class Fresh:
    def __init__(self, notkinds):
        self.notkinds = notkinds

    def __call__(self, p):
        return arb(p, notkinds=self.notkinds)

    def __eq__(self, o):
        return isinstance(o, Fresh) and o.notkinds == self.notkinds

    def __hash__(self):
        return hash(self.notkinds)


def arb(p, kind=None, parent=MISSING, notkinds=()):
    """an arbitrary node of an arbitrary tree"""
    o = p.obj(DocNode, {}, lazy, {'arbitrary': True, 'fresh': Fresh(notkinds), 'notkinds': notkinds}, name=kind or 'node')
    if kind is not None:
        o.fields['kind'] = kind
    if parent is not MISSING:
        o.fields['parent'] = parent
    return o


def child_of(p, o):
    return arb(p, parent=o, notkinds=('document',))


# ---------------------------------------------------------------- macros
class MacroFn:
    """a macro function of the caller: any str, any other value, any Exception"""
    notnone = True

    def call(self, interp, p, o, args, kwargs):
        p.trace.append(('macro', o, args, kwargs))
        if args:
            raise Unsupported('macro called with positional arguments')
        c = p.choose(3, 'macro result')
        if c == 0:
            return p.atom('macrotext', A.ALL, ('macro', o), tags=('macro',))
        if c == 1:
            return p.opaque('macrovalue', NonStr())
        e = p.obj(Exception, {'args': ()}, meta={'subclass': True, 'macro': True}, name='macro exception')
        raise TExc(e, Exception)

    def callable(self, interp, p, o):
        return True

    def truth(self, interp, p, o):
        return True

    def hasattr(self, interp, p, o, name):
        return p.choose(2, f'hasattr {name}') == 0

    def getattr(self, interp, p, o, name, default=MISSING):
        if name in ('add_headline', 'emit'):
            return Builtin(name, lambda i, pp, *a: None if name == 'add_headline' else pp.atom('tocdoc', A.ALL, ('macro', o), tags=('macro',)))
        raise Unsupported(f'attribute {name} of a macro')


class NonStr:
    notnone = False

    def isinstance(self, interp, p, o, cs):
        from ..models import bool_memo
        if set(cs) <= {str}:
            return False
        return bool_memo(p, ('isinst', o.rid, repr([c for c in cs if c is not str])))


class MacroDict:
    """a dict from names to macro functions"""

    def has(self, interp, p, d, k):
        return None

    def value(self, interp, p, d, k):
        o = p.opaque('macro', MacroFn())
        p.trace.append(('lookup', d, k, o))
        return o

    def key(self, interp, p, d):
        return p.atom('macroname')


class MacroObj:
    """an object or module with macro functions as attributes"""
    notnone = True

    def isinstance(self, interp, p, o, cs):
        return False

    def callable(self, interp, p, o):
        return False

    def truth(self, interp, p, o):
        return True

    def getattr_sym(self, interp, p, o, name, *default):
        from ..models import bool_memo
        from ..values import key_of
        if bool_memo(p, ('hasmacro', o.rid, repr(key_of(name)))):
            k = ('macroof', o.rid, repr(key_of(name)))
            if k not in p.memo:
                p.memo[k] = p.opaque('macro', MacroFn())
                p.trace.append(('lookup', o, name, p.memo[k]))
            return p.memo[k]
        if default:
            return default[0]
        interp.throw(AttributeError, 'no such macro')

    def getattr(self, interp, p, o, name, default=MISSING):
        return self.getattr_sym(interp, p, o, name, *(() if default is MISSING else (default,)))

    def hasattr(self, interp, p, o, name):
        from ..models import bool_memo
        return bool_memo(p, ('hasmacro', o.rid, repr(name)))


def any_macros(p):
    c = p.choose(3, 'macros')
    if c == 0:
        return None
    if c == 1:
        return p.sdict({}, MacroDict(), {'real': 'the macros of the caller'})
    return p.opaque('macros', MacroObj())


class Stderr:
    notnone = True

    def getattr(self, interp, p, o, name, default=MISSING):
        if name == 'write':
            def w(i, pp, s):
                pp.trace.append(('stderr', s))
            return Builtin('write', w)
        raise Unsupported(f'stderr.{name}')


def any_emitter(v, root=None, verbose_max=None):
    """an HtmlEmitter in any state it can have: __init__ is interpreted, then the table of contents is havocked"""
    p = v.path
    if root is None:
        root = arb(p, kind='document', parent=None)
    c = p.choose(2, 'verbose')
    verbose = None
    if c:
        verbose = p.int('verbose')
        if verbose_max is not None:
            p.assume(verbose.e <= verbose_max)
    strict = p.bool('strict')
    stderr = None if p.choose(2, 'stderr') else p.opaque('stderr', Stderr())
    v.interp.models.update(std_models())
    macros = any_macros(p)
    em = v.call(HtmlEmitter, root, macros=macros, verbose=verbose, stderr=stderr, strict=strict)
    toc = em.fields.get('toc')
    if isinstance(toc, Obj) and toc.cls is TableOfContent:
        havoc_toc(p, toc)
    p.extra['emitter'] = em
    return em


def havoc_toc(p, toc):
    """class invariant of TableOfContent"""
    toc.meta['refresh'] = havoc_toc
    p.log.append(('r', toc, None, None))
    toc.fields['headlines'] = models.outlives(p, toc, 'headlines', p.slist([Seg('src', elem=lambda i, pp: (pp.int('hlevel', 1), pp.atom('htext')), name='headlines')]))
    toc.fields['_created'] = p.bool('created')
    toc.fields['max_depth'] = Pending(['none', 'int'], None)
    toc.fields['_current_level'] = p.int('current')


# ---------------------------------------------------------------- contracts
class FragContract:
    """emit_node(child) inside another emit function: a well-formed fragment of HTML, a str; it may add headlines to
    the table of contents and write to stderr"""

    def __init__(self, first):
        self.first = first      # the node whose emission is verified: its own emit_node call is interpreted
        self.name = 'emit_node'

    def apply(self, interp, p, args, kwargs):
        node = args[1] if len(args) > 1 else kwargs.get('node')
        if node is self.first and not p.extra.get('emitted'):
            p.extra['emitted'] = True
            return NotImplemented
        if not (isinstance(node, Obj) and node.cls is DocNode):
            raise Unsupported('emit_node of something that is not a DocNode')
        em = args[0]
        toc = em.fields.get('toc')
        if isinstance(toc, Obj) and toc.cls is TableOfContent:
            havoc_toc(p, toc)
        return p.derived('emit', [node], A.ALL, tags=('frag',))


def traceback_model(interp, p, *a, **kw):
    return p.slist([Seg('src', elem=lambda i, pp: pp.atom('traceback'), name='traceback')])


def getfile_model(interp, p, o):
    c = p.choose(3, 'getfile')
    if c == 0:
        return p.atom('filename')
    interp.throw([None, TypeError, OSError][c], 'getfile')


def getsourcelines_model(interp, p, o):
    c = p.choose(4, 'getsourcelines')
    if c == 0:
        return (p.slist([Seg('src', elem=lambda i, pp: pp.atom('line'), name='lines', nonempty=True)]), p.int('lineno', 0))
    interp.throw([None, TypeError, OSError, ValueError][c], 'getsourcelines')


def std_models():
    import inspect
    import traceback
    import sys
    return {sys.stderr.write: lambda i, p, s: p.trace.append(('stderr', s)), traceback.format_exception: traceback_model, inspect.getfile: getfile_model,
            inspect.getsourcelines: getsourcelines_model}


def string2dict_contract(interp, p, *args, **kw):
    """creole.shared.utils.string2dict (its own contract is discharged in C02/C20): a new dict with str keys, or ValueError"""
    if p.choose(2, 'string2dict') == 1:
        interp.throw(ValueError, 'malformed')

    class D:
        def has(self, interp, p, d, k):
            return None

        def value(self, interp, p, d, k):
            # what string2dict makes of a word (its contract: C20)
            i = p.choose(5, 'argument value')
            return p.atom('argvalue') if i == 0 else p.int('argvalue') if i == 1 else (True, False, None)[i - 2]

        def key(self, interp, p, d):
            return p.atom('argname')
    return p.sdict({}, D())


def base_models():
    from creole.shared import utils
    m = std_models()
    m[utils.string2dict] = string2dict_contract
    return m
