"""C02: creole2html raises nothing, returns a str, and contains every macro failure."""
import z3

import creole
from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent
from creole.parser.creol2html_parser import CreoleParser
from creole.shared import utils
from creole.shared.document_tree import DocNode

from .. import automata as A
from ..explore import lang_of
from ..rematch import new_match
from ..values import S, SB, SI, Obj, PathEnd, SDict, Seg, SList, TExc, Unsupported, atom_of, is_str, parts_of, rope
from . import env_creole as env
from . import env_parser as envp
from .c01 import FlatContract, Html, Once, nest


def prove(pr):
    calls = [(emit_kind, (k,)) for k in env.KINDS]
    calls.sort(key=lambda c: c[1] not in (('macro_inline',), ('macro_block',), ('image',)))
    calls = [(replace, (n, b)) for n, b in (('inline_re', True), ('block_re', True), ('block_re', False), ('item_re', True), ('link_re', True))] + calls
    calls += [(s2d, ()), (parse_loop, ('parse_inline',)), (parse_loop, ('parse_block',)), (parse, ()), (toc_total, ()), (emit, ()), (top, ())]
    pr.units(calls)
    pr.trust('shlex.split', 'raises ValueError or returns a list of str')
    pr.trust('re', 'a match of a pattern of the repository is some match of its parse tree (superset of the real matches)')
    pr.trust('traceback.format_exception, inspect.getfile, inspect.getsourcelines, pprint.pformat, print',
             'return values of their documented types or raise TypeError/OSError/ValueError (inspect)')
    pr.assume('str() and repr() of the exceptions and values of the macros of the caller work')
    pr.assume('nesting within the recursion limit of the interpreter; termination (the parent chain of a node is finite)')
    pr.assume('TableOfContent.flat_list2nest_list returns nested lists of the strings of its argument (discharged in C06)')


def raised(v, name, e):
    v.require(name, False, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args", e.value)!r} ({v.where()})')


# ---------------------------------------------------------------- emitter
def emit_kind(pr, kind):
    def run(v):
        p = v.path
        em = env.any_emitter(v, verbose_max=2)
        node = env.arb(p, kind=kind, parent=None if kind == 'document' else env.arb(p))
        contract.first = node
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
        if kind in env.MACROS:
            contained(v, em, kind, r)
    contract = env.FragContract(None)
    obs = ['raises nothing', 'returns a str']
    if kind in env.MACROS:
        obs += ['a macro that fails is replaced by a notice']
    pr.verify(f'HtmlEmitter.emit_node[{kind}]', run, obs, contracts={HtmlEmitter.emit_node: contract}, models=env.base_models())


def contained(v, em, kind, r):
    """r is the text of the macro, or the error notice"""
    p = v.path
    name = 'a macro that fails is replaced by a notice'
    calls = [t for t in p.trace if t[0] == 'macro']
    texts = [a for a in (p.reg) if a is not None and getattr(a, 'origin', ('',))[0] == 'macro']
    nl = '\n' if kind == 'macro_block' else ''
    if len(calls) > 1:
        v.require(name, False, 'the macro is called more than once')
        return
    if texts:
        want = rope(S((texts[0],)), nl)
        from ..values import key_of
        v.require(name, is_str(r) and key_of(r) == key_of(want), f'macro returns a str, but the result is {r!r}')
        return
    if r in ('<<toc>>' + nl, '&lt;&lt;toc&gt;&gt;' + nl) and not calls:
        return      # the table of contents (C01, C06)
    vb = em.fields['verbose']
    pos = vb > 0 if isinstance(vb, int) else p.entails(vb.e > 0)
    neg = vb <= 0 if isinstance(vb, int) else p.entails(vb.e <= 0)
    if neg:
        v.require(name, r == '', f'verbose=0, but the result is {r!r}')
    elif pos:
        ps = parts_of(r) if is_str(r) else ()
        ok = ps and isinstance(ps[0], str) and ps[0].startswith('[Error: ') and isinstance(ps[-1], str) and ps[-1].endswith(']\n')
        v.require(name, bool(ok), f'the result is {r!r}')
    else:
        v.require(name, False, f'no decision on verbose, the result is {r!r}')


def toc_total(pr):
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        try:
            r = v.call(TableOfContent.emit, toc, p.atom('document', A.ALL, ('doc',)))
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
    pr.verify('TableOfContent.emit', run, ['raises nothing', 'returns a str'],
              contracts={TableOfContent.nested_headlines2html: Html(), TableOfContent.flat_list2nest_list: FlatContract()})

    def run2(v):
        p = v.path
        toc = v.call(TableOfContent)
        x = nest(p)
        args = () if p.choose(2, 'level') else (p.int('level', 0),)
        try:
            r = v.call(TableOfContent.nested_headlines2html, toc, x, *args)
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
    pr.verify('TableOfContent.nested_headlines2html', run2, ['raises nothing', 'returns a str'],
              contracts={TableOfContent.nested_headlines2html: Once(('frag',))})


def emit(pr):
    def run(v):
        em = env.any_emitter(v, verbose_max=2)
        try:
            r = v.call(HtmlEmitter.emit, em)
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
    pr.verify('HtmlEmitter.emit', run, ['raises nothing', 'returns a str'], contracts={
        HtmlEmitter.emit_node: env.FragContract(None), TableOfContent.nested_headlines2html: Html(),
        TableOfContent.flat_list2nest_list: FlatContract()}, models=env.base_models())


# ---------------------------------------------------------------- string2dict
def shlex_model(interp, p, s, *a, **kw):
    if not is_str(s):
        raise Unsupported('shlex.split of a non-str')
    if p.choose(2, 'shlex') == 1:
        interp.throw(ValueError, 'No closing quotation')
    return p.slist([Seg('src', elem=lambda i, pp: pp.atom('part', A.ALL, ('shlex', s)), name='parts', src=('shlex', s))])


def s2d(pr):
    import shlex

    def run(v):
        p = v.path
        try:
            r = v.call(utils.string2dict, p.atom('raw'))
        except TExc as e:
            v.require('raises ValueError only', issubclass(e.cls, ValueError), f'{e.cls} ({v.where()})')
            return
        v.require('raises ValueError only', True)
        v.require('returns a dict', isinstance(r, SDict), f'{r!r}')
        ks = list(r.d)
        if r.sym is not None:
            ks.append(r.sym.key(v.interp, p, r))
        v.require('the keys are str', all(is_str(k) for k in ks), f'{ks!r}')
    pr.verify('string2dict', run, ['raises ValueError only', 'returns a dict', 'the keys are str'], models={shlex.split: shlex_model})


# ---------------------------------------------------------------- parser
def pattern(ps, name):
    return ps.fields[name] if name == 'block_re' else getattr(CreoleParser, name)


def replace(pr, name, blog):
    """_replace(match) for every match of the pattern"""
    inline = name in envp.INLINE
    label = f'CreoleParser._replace[{name}{"" if blog else " wiki"}]'
    obs = ['raises nothing', 'tree invariant', 'parser invariant'] + (['cur is kept'] if inline else [])

    def run(v):
        p = v.path
        debug = p.debug()
        ps = envp.any_parser(v, blog, debug)
        cur = ps.fields['cur']
        m = new_match(v.interp, p, pattern(ps, name), p.atom('text'))
        p.extra['first'] = m
        try:
            r = v.call(CreoleParser._replace, ps, m)
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', r is None or is_str(r), f'returns {r!r}')
        envp.check_tree(v)
        envp.check_parser(v, ps)
        if inline:
            v.require('cur is kept', ps.fields['cur'] is cur, f'cur is {ps.fields["cur"]!r} afterwards')
    def contracts(v):
        return {CreoleParser.parse_inline: envp.InlineContract(v), CreoleParser._replace: envp.ReplaceContract(v, first=True)}

    def iteration(interp):
        v = interp.path.run
        envp.check_tree(v)
        envp.check_parser(v, interp.path.extra['parser'])
    pr.verify(label, run, obs, contracts=contracts, models=envp.parser_models(), hooks={'new': envp.new_hook, 'iteration': iteration})


def parse_loop(pr, name):
    """parse_inline / parse_block: re.sub with _replace, given the contract of _replace"""
    def run(v):
        p = v.path
        ps = envp.any_parser(v, True, p.debug())
        cur = ps.fields['cur']
        try:
            v.call(getattr(CreoleParser, name), ps, p.atom('raw'))
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        envp.check_tree(v)
        envp.check_parser(v, ps)
        if name == 'parse_inline':
            v.require('cur is kept', ps.fields['cur'] is cur, f'cur is {ps.fields["cur"]!r} afterwards')
    def contracts(v):
        return {CreoleParser._replace: envp.ReplaceContract(v)}
    pr.verify(f'CreoleParser.{name}', run, ['raises nothing', 'tree invariant', 'parser invariant'] + (['cur is kept'] if name == 'parse_inline' else []),
              contracts=contracts, models=envp.parser_models(), hooks={'new': envp.new_hook})


class BlockContract:
    name = 'CreoleParser.parse_block'

    def apply(self, interp, p, args, kwargs):
        ps, raw = args
        if not is_str(raw):
            interp.throw(TypeError, 'expected string')
        envp.check_parser(p.run, ps)
        envp.check_tree(p.run)
        envp.havoc_parser(p, ps)
        envp.grow_children(p, ps.fields['root'])
        return None


def parse(pr):
    def run(v):
        p = v.path
        raw = p.atom('raw')
        ps = v.call(CreoleParser, raw, blog_line_breaks=p.choose(2, 'blog') == 0, debug=p.debug())
        p.extra['parser'] = ps
        envp.check_parser(v, ps)
        root = ps.fields['root']
        try:
            r = v.call(CreoleParser.parse, ps)
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        v.require('returns the document', isinstance(r, Obj) and r is root and r.fields['kind'] == 'document', f'{r!r}')
        um = r.fields.get('used_macros')
        v.require('returns the document', isinstance(um, SList), 'used_macros')
        envp.check_tree(v)
    pr.verify('CreoleParser.parse', run, ['raises nothing', 'returns the document', 'tree invariant', 'parser invariant'],
              contracts={CreoleParser.parse_block: BlockContract()}, models=envp.parser_models())


class ParseContract:
    name = 'CreoleParser.parse'

    def apply(self, interp, p, args, kwargs):
        return env.arb(p, kind='document', parent=None)


class EmitContract:
    name = 'HtmlEmitter.emit'

    def apply(self, interp, p, args, kwargs):
        em = args[0]
        vb = em.fields['verbose']
        p.extra['emitted'] = p.atom('html', A.ALL, ('html',))
        return p.extra['emitted']


def top(pr):
    def run(v):
        p = v.path
        kw = {}
        if p.choose(2, 'kw') == 1:
            kw = dict(block_rules=None, blog_line_breaks=p.bool('blog') if False else p.choose(2, 'blog') == 0, macros=env.any_macros(p),
                      verbose=[None, p.int('verbose', hi=2)][p.choose(2, 'verbose')],
                      stderr=None if p.choose(2, 'stderr') else p.opaque('stderr', env.Stderr()), strict=p.bool('strict'), debug=p.debug())
        try:
            r = v.call(creole.creole2html, p.atom('markup'), **kw)
        except TExc as e:
            raised(v, 'raises nothing', e)
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
    pr.verify('creole2html', run, ['raises nothing', 'returns a str'],
              contracts={CreoleParser.parse: ParseContract(), HtmlEmitter.emit: EmitContract()},
              models={**envp.parser_models(), DocNode.debug: lambda i, p, *a: None})
    pr.trust('DocNode.debug', 'raises nothing (debug output only)')
