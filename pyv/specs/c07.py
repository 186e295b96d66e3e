"""C07: a conversion depends on its arguments only and leaves them unchanged.

Frame condition of every function under contract: the only objects it writes are made by the conversion itself.
A write to a container or attribute of a module, of a class, of a default argument, of a real object of the program,
or to the macros of the caller is a violation wherever it is made on any path; so is output.  As nothing outlives
a conversion, and the functions read nothing but their arguments, objects made by the conversion and constants of the
program, the result is a function of the arguments.

The functions are executed as in C01, C02, C08 and C12 (arbitrary arguments, arbitrary states of parser and emitter, calls
by contract, arbitrary loop iterations); only the frame obligations are generated."""
from creole.shared.document_tree import DocNode

from creole.emitter.creol2html_emitter import TableOfContent
from creole.parser.html_parser import HtmlParser
from creole.shared.markup_table import MarkupTable

from . import env_html
from . import c01, c02, c05, c08, c12

WRITES, PRINTS = 'writes only objects made by the conversion', 'prints nothing'


def install(v):
    p = v.path
    v.checked = set()

    def shared(what):
        v.require(WRITES, False, f'write to {what} ({v.where()})')
    p.extra['shared_write'] = shared
    p.extra['debug_off'] = True
    hk = v.interp.hooks
    old = hk.get('foreign_write')

    def foreign(interp, o, name, val):
        if old and old(interp, o, name, val):
            return True
        if o is not None and (isinstance(o, (str, tuple, int)) or type(o).__module__ == 'pyv.values' and type(o).__name__ in ('S', 'SI', 'SB')):
            return False
        shared(f'{name!r} of {o!r}' if o is not None else f'the global {name}')
        return True
    hk['foreign_write'] = foreign

    def printed(interp, args, kw):
        v.require(PRINTS, kw.get('file') is not None, f'print{args!r} ({v.where()})'[:500])
    hk['print'] = printed
    v.interp.models[DocNode.debug] = lambda i, pp, *a: v.require(PRINTS, False, f'DocNode.debug() ({v.where()})')


def tree(v):
    n = v.call(DocNode, 'document')
    c = v.call(DocNode, 'paragraph', n, 'text', attrs=[('a', 'b')])
    v.call(DocNode, 'text', c, v.path.atom('content'))


def table(v):
    p = v.path
    t = v.call(MarkupTable, head_prefix=p.atom('prefix'), auto_width=p.bool('auto_width'))
    for name, args in (('add_th', ('h',)), ('add_tr', ()), ('add_td', (p.atom('cell'),)), ('get_table_markup', ())):
        v.interp.call(v.interp.getattr(t, name), args, {})


def toc(v):
    p = v.path
    t = v.call(TableOfContent)
    v.interp.call(v.interp.getattr(t, 'add_headline'), (1, p.atom('content')), {})



def parser(v):
    ps = v.call(HtmlParser)
    v.interp.call(v.interp.getattr(ps, 'handle_starttag'), ('p', v.path.slist([])), {})
    v.interp.call(v.interp.getattr(ps, 'handle_data'), (v.path.atom('data'),), {})
    v.interp.call(v.interp.getattr(ps, 'handle_endtag'), ('p',), {})


MADE = {'DocNode': tree, 'MarkupTable': table, 'TableOfContent': toc, 'HtmlParser': parser}


def made(pr, name):
    """objects as they are made (in the other units their state is arbitrary)"""
    def run(v):
        MADE[name](v)
    pr.verify(f'{name} as it is made', run, models=env_html.parser_models(), contracts=env_html.base_contracts())


def prove(pr):
    calls = []
    collect = []

    class Collector:
        """the units of another property"""

        def __getattr__(self, name):
            return lambda *a, **k: None

        def units(self, cs):
            collect.extend(cs)
    for spec in (c01, c02, c05, c08, c12):
        n = len(collect)
        spec.prove(Collector())
    seen = set()
    for f, args in collect:
        if f.__module__.endswith('c12') and f.__name__ == 'lemmas':
            continue
        calls.append((f, args))
    calls += [(made, (n,)) for n in MADE]
    pr.only = ([WRITES, PRINTS], install)
    pr.units(calls)
    pr.trust('re, urllib.parse, html.parser, shlex, inspect, traceback', 'keep no state that changes a result (caches only)')
    pr.assume('the macros of the caller and unknown_emit depend on their arguments only')
