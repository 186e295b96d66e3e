"""C08: the html converters accept every HTML input.

1. emit_node of every emitter, for every kind of node and every state of the emitter, returns a str, raises nothing
   (html2rest: Html2restException only) and keeps the markers of the open lists and the current table: this is the
   contract that its recursive calls use (induction over the tree).
2. every handler of the parser keeps the tree invariant (env_html) and raises nothing.
3. the entry functions compose the two."""
from html.parser import HTMLParser

import creole
from creole.emitter import html2rest_emitter
from creole.parser import html_parser as hp
from creole.parser.html_parser import HtmlParser
from creole.shared.markup_table import MarkupTable

from .. import automata as A
from ..interp import MISSING
from ..rematch import new_match
from ..values import S, SB, SI, Obj, PathEnd, Pending, SDict, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, rope
from . import env_html as env


def kinds(which):
    """the kinds with a method of their own, from the class that runs"""
    cls = env.EMITTERS[which]
    return sorted(n[:-5] for n in dir(cls) if n.endswith('_emit') and env.KIND.has(n[:-5]))


def prove(pr):
    calls = [(emit, (w, k)) for w in env.EMITTERS for k in kinds(w)]
    calls += [(emit, (w, None, h)) for w in env.EMITTERS for h in env.HANDLERS]
    calls += [(helper, a) for a in (('markdown', '_get_text', 'get_text', False, is_str), ('rest', '_should_do_substitution', 'substitution', True, is_bool))]
    calls += [(handler, (n,)) for n in handlers()] + [(cut, ()), (feed, ())]
    calls += [(entry, (w, h)) for w in ENTRIES for h in (None, *env.HANDLERS) if h != 'raise_unknown_node']
    pr.units(calls)
    pr.trust('html.parser', 'feed() and close() raise nothing and call the handlers with str arguments')
    pr.trust('Deentity.replace_all', 'a str for a str (C12)')
    pr.trust('MarkupTable renderings', 'a str for rows of texts (C11)')
    pr.trust('urllib.parse', 'urlparse raises ValueError only, quote UnicodeEncodeError only, urlunparse nothing')
    pr.assume("elements are not nested deeper than Python's recursion limit allows")


def is_bool(v):
    return isinstance(v, (bool, SB))


def helper(pr, which, name, mark, below_root, result):
    """recursive helper methods with a contract of their own"""
    cls = env.EMITTERS[which]
    if not hasattr(cls, name):
        return
    label = f'{cls.__name__}.{name}'

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False)
        node = env.arb(p) if below_root else env.any_node(p)
        p.extra[mark] = node
        try:
            r = v.interp.call(v.interp.getattr(em, name), (node,), {})
        except TExc as e:
            ok = which == 'rest' and e.cls is html2rest_emitter.Html2restException
            v.require('raises nothing', ok, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args")} ({v.where()})')
            return
        v.require('raises nothing', True)
        v.require('result', result(r), f'{r!r}')
    pr.verify(label, run, ['raises nothing', 'result'], models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, budget=120,
              hooks={'new': env.new_object})


def emit(pr, which, kind, handler='transparent_unknown_nodes'):
    cls = env.EMITTERS[which]
    label = f'{cls.__name__}.emit_node[{kind or "any other: " + handler}]'
    obs = ['raises nothing', 'returns a str', 'keeps the state of the enclosing elements']

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False, handler=handler)
        if kind is None:
            node = env.arb(p)
            node.fields['kind'] = p.atom('kind', env.TAG - A.words(tuple(kinds(which))) if kinds(which) else env.TAG, ('kind', node))
        elif kind == 'document':
            node = em.fields['root'] if p.choose(2, 'root') == 0 else env.arb(p, kind=kind)
        else:
            node = env.arb(p, kind=kind)
        p.extra['first_node'] = node
        old = {n: em.fields[n] for n in env.SAVED if n in em.fields}
        mark = len(p.log)
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
        except TExc as e:
            ok = which == 'rest' and e.cls is html2rest_emitter.Html2restException or handler == 'raise_unknown_node' and e.cls is NotImplementedError
            v.require('raises nothing', ok, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args")} ({v.where()})')
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
        for n, x in old.items():
            y = em.fields[n]
            if isinstance(x, Pending) and x is y:
                continue
            v.same('keeps the state of the enclosing elements', y, x, f'{n}:')
        n = env.unknown_state(p, em, env.STATE, mark)
        if n:
            v.decide('keeps the state of the enclosing elements', None, f'the arbitrary state does not have {n}')
    em_f = cls.emit_node
    contracts = env.base_contracts() | {em_f: env.EmitNode()}
    pr.verify(label, run, obs, models=env.base_models(), contracts=contracts, budget=120, hooks={'new': env.new_object})

# ---------------------------------------------------------------- the parser
HANDLER_ARGS = {
    'handle_starttag': ('tag', 'attrs'), 'handle_startendtag': ('tag', 'attrs'), 'handle_endtag': ('tag',), 'handle_data': ('data',),
    'handle_charref': ('charref',), 'handle_entityref': ('entityref',), 'handle_comment': ('data',), 'handle_decl': ('data',),
    'handle_pi': ('data',), 'unknown_decl': ('data',)}


def handlers():
    return [n for n in HANDLER_ARGS if getattr(HtmlParser, n) is not getattr(HTMLParser, n)]


def handler(pr, name):
    """an event handler, called in any state of the parser"""
    label = f'HtmlParser.{name}'
    obs = ['raises nothing', 'parser invariant', 'tree invariant']

    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        mark = len(p.log)
        try:
            v.interp.call(v.interp.getattr(ps, name), tuple(env.ARGS[k](p) for k in HANDLER_ARGS[name]), {})
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args")} ({v.where()})')
            return
        v.require('raises nothing', True)
        env.check_html(v, ps, mark)
    pr.verify(label, run, obs, models=env.parser_models(), hooks={'new': env.new_node}, budget=120)


def cut(pr):
    """the callback of the search for <pre> areas"""
    label = 'HtmlParser._pre_cut_out'
    obs = ['raises nothing', 'parser invariant', 'tree invariant', 'result']

    def run(v):
        p = v.path
        ps = env.any_html_parser(v)
        mark = len(p.log)
        m = new_match(v.interp, p, hp.pre_re, p.atom('data'))
        try:
            r = v.interp.call(v.interp.getattr(ps, '_pre_cut_out'), (m,), {})
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args")} ({v.where()})')
            return
        v.require('raises nothing', True)
        v.require('result', r is None or is_str(r), f'{r!r}')
        env.check_html(v, ps, mark)
    pr.verify(label, run, obs, models=env.parser_models(), hooks={'new': env.new_node}, budget=120)


def feed(pr):
    label = 'HtmlParser.feed'
    obs = ['raises nothing', 'parser invariant', 'tree invariant', 'returns the root']

    def run(v):
        p = v.path
        ps = v.call(HtmlParser)
        p.extra['root'] = ps.fields['root']
        mark = 0
        try:
            r = v.interp.call(v.interp.getattr(ps, 'feed'), (p.atom('html'),), {})
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args")} ({v.where()})')
            return
        v.require('raises nothing', True)
        v.require('returns the root', r is ps.fields['root'] and r.fields['kind'] == 'document' and r.fields['parent'] is None, f'{r!r}')
        env.check_html(v, ps, mark)
    pr.verify(label, run, obs, models=env.parser_models(), hooks={'new': env.new_node}, budget=120)


# ---------------------------------------------------------------- the entry functions
ENTRIES = {'creole': creole.html2creole, 'markdown': creole.html2markdown, 'rest': creole.html2rest, 'textile': creole.html2textile}


def entry(pr, which, name):
    label = f'{ENTRIES[which].__name__}[{name or "default"}]'

    def run(v):
        p = v.path
        kw = {}
        if which == 'creole':
            kw['strict'] = p.bool('strict')
        if name:
            kw['unknown_emit'] = env.HANDLERS[name]
        try:
            r = v.call(ENTRIES[which], p.atom('html'), **kw)
        except TExc as e:
            ok = which == 'rest' and e.cls is html2rest_emitter.Html2restException
            v.require('raises nothing', ok, f'{e.cls.__name__} {getattr(e.value, "fields", {}).get("args")} ({v.where()})')
            return
        v.require('raises nothing', True)
        v.require('returns a str', is_str(r), f'{r!r}')
    cls = env.EMITTERS[which]
    pr.verify(label, run, ['raises nothing', 'returns a str'], models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()},
              hooks={'new': env.new_object}, budget=150)
