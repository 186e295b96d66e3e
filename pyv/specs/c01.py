"""C01: the functions of HtmlEmitter and TableOfContent return well-formed, escaped fragments.

For every kind of node, every state of the emitter and every content: the result of emit_node is a well-formed
fragment, given that emit_node of the children returns well-formed fragments (induction over the tree)."""
import z3

from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent

from .. import automata as A
from ..explore import lang_of
from ..values import Obj, S, SB, Seg, TExc, Unsupported, atom_of, is_str, parts_of
from . import env_creole as env
from .judge_html import MARKER, Judge


def has_json(v):
    """the notice of the known finding: json.dumps() of the macro arguments is inserted"""
    return is_str(v) and any(not isinstance(q, str) and q.origin[0] == 'json.dumps' for q in parts_of(v))


def prove(pr):
    for k in env.MACROS:
        pr.known_finding(f'HtmlEmitter.emit_node[{k}]: well-formed (notice about wrong macro arguments)', 'C01-wrong-macro-arguments')
    calls = [(emit_kind, (k,)) for k in env.KINDS]
    calls += [(toc_html, ()), (toc_call, ()), (toc_emit, ()), (emit, ())]
    calls.sort(key=lambda c: c[1] not in (('macro_inline',), ('macro_block',), ('image',)))
    pr.units(calls)
    pr.trust('text returned by a macro of the caller', 'inserted as is: the exception named in the property')
    pr.trust('TableOfContent.flat_list2nest_list', 'returns nested lists of the strings of its argument (discharged in C06)')
    pr.trust('xml.sax.saxutils.escape', 'interpreted from its source, str.replace by the automata library')
    pr.assume('the nodes of the document tree satisfy the tree invariant of env_creole.py: kinds, types of content, level and '
              'macro fields (discharged for CreoleParser in C02)')
    pr.assume('lemma: replacing one placeholder in text position by a well-formed fragment keeps a document well-formed')


def emit_kind(pr, kind):
    def run(v):
        p = v.path
        em = env.any_emitter(v)
        node = env.arb(p, kind=kind, parent=None if kind == 'document' else env.arb(p))
        contract.first = node
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc:
            return      # C02
        if has_json(r):
            v.require('well-formed (notice about wrong macro arguments)', lambda: Judge(marker=True).fragment(r), f'result {r!r}')
        else:
            v.require('well-formed', lambda: Judge(marker=True).fragment(r), f'result {r!r}')
    contract = env.FragContract(None)
    pr.verify(f'HtmlEmitter.emit_node[{kind}]', run, ['well-formed'], contracts={HtmlEmitter.emit_node: contract},
              models=env.base_models())


def nest(p, depth=0):
    """an arbitrary nested list of strings"""
    if p.choose(2, 'nest') == 0:
        return p.atom('headline')
    return nest_list(p)


def nest_list(p):
    return p.slist([Seg('src', elem=lambda i, pp: nest(pp), name='nested')])


class Once:
    """contract of a recursive function: the first call is interpreted, the inner ones are well-formed fragments"""

    def __init__(self, tags):
        self.tags = tags
        self.name = 'rec'

    def apply(self, interp, p, args, kwargs):
        if not p.extra.get(id(self)):
            p.extra[id(self)] = True
            return NotImplemented
        return p.atom('rec', A.ALL, ('rec',), tags=self.tags)


def toc_html(pr):
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        x = nest(p)
        args = () if p.choose(2, 'level') else (p.int('level', 0),)
        r = v.call(TableOfContent.nested_headlines2html, toc, x, *args)
        v.require('well-formed', lambda: Judge().fragment(r), f'result {r!r}')
    pr.verify('TableOfContent.nested_headlines2html', run, ['well-formed'],
              contracts={TableOfContent.nested_headlines2html: Once(('frag',))})


class AnyKwargs:
    def has(self, interp, p, d, k):
        return None

    def value(self, interp, p, d, k):
        return p.opaque('kwarg')

    def key(self, interp, p, d):
        return p.atom('kwname')


def toc_call(pr):
    """the placeholder is returned at most once"""
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        pre = toc.fields['_created']
        depth = [None, p.int('depth'), p.atom('depth'), p.bool('depth')][p.choose(4, 'depth')]
        try:
            r = v.call(TableOfContent.__call__, toc, depth)
        except TExc as e:
            v.require('raises TypeError only', issubclass(e.cls, TypeError), f'{e.cls}')
            return
        if r == MARKER:
            post = toc.fields['_created']
            v.require('placeholder at most once', z3.Not(pre.e) if isinstance(pre, SB) else pre is False, 'placeholder although it exists already')
            v.require('placeholder at most once', post is True, f'_created is {post!r} afterwards')
        else:
            v.require('well-formed', lambda: Judge().fragment(r), f'result {r!r}')
    pr.verify('TableOfContent.__call__', run, ['well-formed', 'placeholder at most once', 'raises TypeError only'])


def replace_rule(judge, q, depth):
    """document.replace(placeholder, html, 1)"""
    o = q.origin
    if o[0] == 'replace' and o[4] == 1 and isinstance(o[2], str) and MARKER in o[2]:
        inner = Judge(marker=True, extra=replace_rule)
        for part, what in ((o[2], 'replaced text'), (o[1], 'document'), (o[3], 'table of contents')):
            ok, why = inner.fragment(part, depth + 1)
            if not ok:
                return False, f'{what}: {why}'
        if o[2].count(MARKER) != 1:
            return False, 'more than the placeholder is replaced'
        return True, ''
    return None


def flat_contract(interp, p, *args, **kw):
    return nest_list(p)


class FlatContract:
    name = 'flat_list2nest_list'

    def apply(self, interp, p, args, kwargs):
        return nest_list(p)


class Html:
    name = 'nested_headlines2html'

    def apply(self, interp, p, args, kwargs):
        return p.atom('tochtml', A.ALL, ('toc',), tags=('frag',))


def toc_emit(pr):
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        doc = p.atom('document', A.ALL, ('doc',), tags=('frag', 'marker'))
        r = v.call(TableOfContent.emit, toc, doc)
        v.require('well-formed', lambda: Judge(extra=replace_rule).fragment(r), f'result {r!r}')
    pr.verify('TableOfContent.emit', run, ['well-formed'], contracts={
        TableOfContent.nested_headlines2html: Html(), TableOfContent.flat_list2nest_list: FlatContract()})


def emit(pr):
    def run(v):
        p = v.path
        em = env.any_emitter(v)
        try:
            r = v.call(HtmlEmitter.emit, em)
        except TExc:
            return
        v.require('well-formed', lambda: Judge(extra=replace_rule).fragment(r), f'result {r!r}')
    pr.verify('HtmlEmitter.emit', run, ['well-formed'], contracts={
        HtmlEmitter.emit_node: env.FragContract(None), TableOfContent.nested_headlines2html: Html(),
        TableOfContent.flat_list2nest_list: FlatContract()}, models=env.base_models())
