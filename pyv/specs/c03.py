"""C03: creole2html keeps all text of the source, in order.

Texts are compared apart from the characters of D (whitespace and the markup characters of the property).
  * a handler of the parser adds the text of its match at the end of the document tree, in order; the open element stays at
    the end of the tree and the text node that later characters are added to is the last node (or there is none);
  * the passes over a text (parse_block, parse_inline, lists, link texts, table cells) hand over all of it: the patterns match
    at every character outside of D;
  * every element is emitted with its content and the emissions of all children, each once and in order;
  * creole2html parses the markup and returns the emission of the document."""
import html
import re

import creole
from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent
from creole.parser.creol2html_parser import CreoleParser
from creole.parser.creol2html_rules import BlockRules
from creole.shared.document_tree import DocNode

from .. import automata as A
from .. import concrete
from ..rematch import count_nodes, new_match, parsed, sc
from ..values import S, SI, Atom, Obj, PathEnd, TExc, Unsupported, atom_of, is_str, key_of
from . import c02, project
from . import env_creole as env
from . import env_edge as edge
from . import env_parser as envp
from .c01 import FlatContract, Html

MARKUP = '*/#_^,-~\\{}[]|=<>:!.'
D = A.cs_norm(list(A.SPACE) + [(ord(c), ord(c)) for c in MARKUP])
ADDED = 'the text of the match is added at the end of the document, in order'
STATE = 'the open element and the open text node are at the end of the document'
PASS = 'all of the text is handed over'
COVER = 'the pattern matches at every character that is neither whitespace nor markup'
KEPT = 'the content and all children are emitted, once and in order'
ALL = 'the document is returned'


def expected(whole, d):
    return project.keep(whole, d)


def patterns():
    return (('inline_re', True), ('block_re', True), ('block_re', False), ('item_re', True), ('link_re', True))


def prove(pr):
    calls = [(handler, (n, b)) for n, b in patterns()] + [(whole_pass, (n,)) for n in ('parse_inline', 'parse_block')]
    calls += [(cover, ()), (top, ()), (emit, ())] + [(emitted, (k,)) for k in env.KINDS if k not in env.MACROS]
    pr.units(calls)
    pr.trust('re', 're.sub and finditer skip a character only if no match of the pattern begins at it; a match is some match of the parse tree of the pattern')
    pr.assume('item_re leaves only newlines and cell_re only bars of a list or table row: their greedy repetitions take all of a line or cell (the inclusion of the languages is an obligation)')
    pr.assume('the emission of a document without macros does not contain << (C01: no < in text or attribute values)')
    pr.assume('the size of an image becomes its width and height (the property allows it)')


def has_macro(m):
    w = m.spec.w
    return any(g in w.groups and (w.names.get(g) or '').startswith('macro') for g in w.order)


def handler(pr, name, blog):
    def run(v):
        p = v.path
        ps = edge.any_parser(v, blog, p.debug(), name in edge.INLINE)
        cur0 = ps.fields['cur']
        m = new_match(v.interp, p, c02.pattern(ps, name), p.atom('text'))
        if has_macro(m):
            raise PathEnd()
        try:
            v.call(CreoleParser._replace, ps, m)
        except TExc as e:
            v.decide(ADDED, None, f'{e.cls.__name__} ({v.where()})')
            return
        if not v.feasible():
            return
        edge.state(v, STATE, name not in edge.INLINE)
        if name in edge.INLINE:
            v.decide(STATE, ps.fields['cur'] is cur0 or None, f'{ps.fields["cur"]!r} is open behind an inline element')
        try:
            got = edge.new_texts(p, D)
        except Unsupported as e:
            why = isinstance(e, edge.Lost) or changed(p, m)
            v.decide(ADDED, False if why else None, f'{e} {why}')
            return
        want = expected(m.spec.whole, D)
        ok = edge.subsequence(want, got)
        gone = edge.removed(p)
        v.decide(ADDED, ok and not gone or (False if edge.explained(p) and not gone else None), f'{named(p, got)} instead of {named(p, want)} of {m.spec.whole!r} {gone}')

    pr.verify(f'CreoleParser._replace[{name}{"" if blog else " wiki"}]', run, [ADDED, STATE], contracts=lambda v: {CreoleParser.parse_inline: edge.InlineContract(v, STATE)},
              models=envp.parser_models(), budget=150,
              hooks={'new': edge.new_hook, 'append': edge.append_hook, 'resub': edge.resub_hook(STATE), 'sub_count': edge.count_hook(ADDED), 'iteration': edge.iteration_hook(D, expected, ADDED)})


def changed(p, m):
    """a state in which the open text node does not have its content so far and then the text of the match"""
    o = p.extra.get('text')
    if o is None or not is_str(o.fields.get('content')):
        return ''

    def kept(c, sofar, whole):
        return edge.subsequence(project.drop(sofar + whole, D), project.drop(c, D))
    return concrete.violated(p, kept, [o.fields['content'], o.meta['sofar'], m.spec.whole])


def named(p, ks):
    return [x if isinstance(x, str) else repr(p.reg[x]) if isinstance(x, int) else repr(x) for x in ks]


def whole_pass(pr, name):
    def run(v):
        p = v.path
        ps = edge.any_parser(v, p.choose(2, 'blog') == 0, p.debug(), name == 'parse_inline')
        text = p.atom('text')
        try:
            v.call(getattr(CreoleParser, name), ps, text)
        except TExc as e:
            v.decide(PASS, None, f'{e.cls.__name__} ({v.where()})')
            return
        ps_ = p.extra.get('passes', [])
        want = (ps.fields['block_re'],) if name == 'parse_block' else (CreoleParser.inline_re,)
        v.decide(PASS, len(ps_) == 1 and any(ps_[0][0] is x for x in want) or None, f'{ps_!r}')
        if len(ps_) == 1:
            ok, why = project.equal(p, ps_[0][1], text, D)
            v.decide(PASS, ok, why)
    pr.verify(f'CreoleParser.{name}', run, [PASS], models=envp.parser_models(), hooks={'new': edge.new_hook, 'append': edge.append_hook, 'resub': edge.resub_hook(PASS), 'sub_count': edge.count_hook(PASS)})


# ---------------------------------------------------------------- coverage of the patterns
def alternatives(pat):
    nodes = list(parsed(pat))
    while len(nodes) == 1:
        op, av = nodes[0]
        if op is sc.BRANCH:
            return [list(b) for b in av[1]]
        if op is sc.SUBPATTERN:
            nodes = list(av[3])
            continue
        break
    return [nodes]


def small(nodes, limit=20):
    """the short alternatives of a pattern (they match fewer texts)"""
    out = []
    for op, av in nodes:
        if op is sc.BRANCH:
            alts = [small(list(b), limit) for b in av[1]]
            alts = [b for b in alts if count_nodes(b) <= limit] or [min(alts, key=count_nodes)]
            out.append((op, (av[0], alts)))
        elif op is sc.SUBPATTERN:
            out.append((op, (av[0], av[1], av[2], small(list(av[3]), limit))))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            out.append((op, (av[0], av[1], small(list(av[2]), 4))))
        else:
            out.append((op, av))
    return out


def matched(pat, strip=False):
    """texts that the pattern matches wherever they stand"""
    L = A.EMPTY
    flags = parsed(pat).state.flags
    for nodes in alternatives(pat):
        if strip:
            nodes = [n for n in nodes if n[0] is not sc.AT]
        try:
            L = L | A.sre_lang(small(nodes), flags, 'under')
        except Unsupported:
            continue
    return L


def group_lang(pat, name):
    for nodes in alternatives(pat):
        for n in nodes:
            if n[0] is sc.SUBPATTERN and n[1][0] == pat.groupindex.get(name):
                return A.sre_lang(list(n[1][3]), parsed(pat).state.flags)
    return None


def cover(pr):
    def run(v):
        other = A.chars(A.cs_norm(A.FULL)) - A.chars(D)
        for name, blog in patterns():
            pat = re.compile('|'.join(BlockRules(blog_line_breaks=blog).rules), BlockRules(blog_line_breaks=blog).re_flags) if name == 'block_re' else getattr(CreoleParser, name)
            if name == 'item_re':
                block = re.compile('|'.join(BlockRules().rules), BlockRules().re_flags)
                L, one = group_lang(block, 'list'), matched(pat, strip=True)
                ok = L is not None and L <= one + (A.lit('\n') + one).star()
            else:
                ok = other <= matched(pat)
            v.decide(COVER, ok or None, name)
        block = re.compile('|'.join(BlockRules().rules), BlockRules().re_flags)
        v.decide(COVER, (A.lit('|') + A.chars_star(A.cs_norm(A.FULL)) <= (matched(CreoleParser.cell_re) | A.lit('|')).star()) or None, 'cell_re')
    pr.verify('the patterns of CreoleParser', run, [COVER], budget=150)


# ---------------------------------------------------------------- the emitter
class Emitted:
    """emit_node(child): its text"""

    def __init__(self):
        self.first = None
        self.name = 'emit_node'

    def apply(self, interp, p, args, kwargs):
        node = args[1] if len(args) > 1 else kwargs.get('node')
        if node is p.extra.get('first_node') and not p.extra.get('emitted'):
            p.extra['emitted'] = True
            return NotImplemented
        if not (isinstance(node, Obj) and node.cls is DocNode):
            raise Unsupported('emit_node of something that is not a DocNode')
        em = args[0]
        toc = em.fields.get('toc')
        if isinstance(toc, Obj) and toc.cls is TableOfContent:
            env.havoc_toc(p, toc)
        elem = any(e is node for _, e in p.extra.get('elems', ()))
        return p.derived('emit', [node], A.ALL, tags=('emit', 'elem') if elem else ('emit',))


def emitted(pr, kind):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = True, False
        em = env.any_emitter(v, verbose_max=2)
        node = env.arb(p, kind=kind, parent=None if kind == 'document' else env.arb(p))
        p.extra['first_node'] = node
        want = []
        if kind in env.TEXTLIKE:
            want.append(v.interp.getattr(node, 'content'))
        alt = None
        if kind == 'image':
            alt = v.interp.getattr(v.interp.getattr(node, 'children').items[0], 'content')
            want.append(alt)
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc as e:
            v.decide(KEPT, None, f'{e.cls.__name__} ({v.where()})')
            return
        if not is_str(r):
            v.decide(KEPT, None, f'{r!r}')
            return
        got = project.keep(r, D)
        exp = []
        for t in want:
            exp += project.keep(t, D)
        if kind in edge.CONTAINERS and not project.known_blank(p, node, D):
            exp.append(('children', node.rid))
        ok = edge.subsequence(exp, got)
        if not ok and alt is not None:
            ok = sized(v, em, node, want[0], alt, got)
        why = ''
        if not ok and kind not in edge.CONTAINERS:
            why = lost(p, r, want)
        if not ok and project.incomplete(p, got):
            why = 'not all children, or in another order'
        v.decide(KEPT, bool(ok) or (False if why else None), f'{r!r}: {named(p, got)} instead of {named(p, exp)} {why}')
        once = [x for x in got if isinstance(x, tuple)]
        v.decide(KEPT, len(once) <= 1 or None, 'children are emitted twice')
    pr.verify(f'HtmlEmitter.emit_node[{kind}]', run, [KEPT], contracts={HtmlEmitter.emit_node: Emitted()}, models=env.base_models(), hooks={'iteration': project.pieces_hook(D)})


def lost(p, r, want):
    """a state in which r does not hold the characters of want, for texts that any kind of node can have"""
    other = A.chars(A.cs_norm(A.FULL)) - A.chars(D)
    plain = (other + (other | A.lit(' ') + other).star()) | A.EPS

    def kept(r, *want):
        if not all(plain.has(w or '') for w in want):
            return True
        return edge.subsequence([c for w in want for c in project.drop(w or '', D)], project.drop(html.unescape(r), D))
    return concrete.violated(p, kept, [r, *want])


def nums(p, got):
    """the numbers in a text: (atom, what they are made of)"""
    res = []
    for x in got:
        a = p.reg[x] if isinstance(x, int) else None
        if a is None or a.origin[0] != 'str' or not isinstance(a.origin[1], SI):
            continue
        src = p.extra.get('intof', {}).get(str(a.origin[1].e))
        if src is None or src[1]:
            continue
        res.append((x, stripped(src[0])))
    return res


def sized(v, em, node, target, alt, got):
    """an image with a size: the text before the last part, and the two numbers of it"""
    p = v.path
    ns = nums(p, got)
    if len(ns) != 2:
        return None
    (w, a), (h, b) = ns
    if a is None or b is None or (a.origin[0], b.origin[0]) != ('before', 'after') or cut_of(a) != cut_of(b) or a.origin[2] not in ('x', 'X'):
        return None
    size = stripped(a.origin[1])
    if size is None or size.origin[0] != 'after' or size.origin[2] != '|':
        return None
    text = size.origin[1]
    if project.keep(text, D) != project.keep(alt, D):
        return None
    first = [q for q in p.reg if isinstance(q, Atom) and q.origin[0] == 'before' and cut_of(q) == cut_of(size)]
    want = project.keep(target, D)
    if len(first) != 1:
        return None
    return edge.subsequence(want + project.keep(S((first[0],)), D) + [w, h], got)


def cut_of(a):
    return tuple(key_of(x) for x in a.origin[1:])


def stripped(t):
    """the text without the steps that strip whitespace, as an atom"""
    a = atom_of(t)
    while a is not None and a.origin[0] in ('lstrip', 'rstrip') and project.strip_chars(a.origin[2], D):
        a = atom_of(a.origin[1])
    return a


def emit(pr):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = True, False
        em = env.any_emitter(v, verbose_max=2)
        toc = em.fields.get('toc')
        if isinstance(toc, Obj):
            toc.fields['_created'] = False      # there is no macro
        elif toc is not None:
            raise PathEnd()     # another class for the macro toc
        root = em.fields['root']
        try:
            r = v.call(HtmlEmitter.emit, em)
        except TExc as e:
            v.decide(ALL, None, f'{e.cls.__name__} ({v.where()})')
            return
        a = atom_of(r) if is_str(r) else None
        while a is not None and a.origin[0] == 'replace' and isinstance(a.origin[2], str) and '<<' in a.origin[2]:
            r = a.origin[1]     # no such text in the emission of a document without macros
            a = atom_of(r)
        got = project.keep(r, D, skip=False)
        ok = len(got) == 1 and isinstance(got[0], int) and p.reg[got[0]].origin[0] == 'emit' and p.reg[got[0]].origin[1] is root
        ok = ok or not got and any(isinstance(x, Atom) and x.origin[0] == 'emit' and x.origin[1] is root and x.lang <= A.chars_star(D) for x in p.reg)
        v.decide(ALL, ok or None, f'{r!r}')

    class E(Emitted):
        def apply(self, interp, p, args, kwargs):
            return p.derived('emit', [args[1]], A.ALL, tags=('emit',))
    pr.verify('HtmlEmitter.emit', run, [ALL], contracts={HtmlEmitter.emit_node: E(), TableOfContent.nested_headlines2html: Html(), TableOfContent.flat_list2nest_list: FlatContract()}, models=env.base_models())


class Block:
    def apply(self, interp, p, args, kwargs):
        ps = args[0]
        raw = args[1] if len(args) > 1 else kwargs.get('raw')
        p.extra.setdefault('blocks', []).append((ps, raw))
        envp.havoc_parser(p, ps)
        envp.grow_children(p, ps.fields['root'])
        return None


class Emit:
    def apply(self, interp, p, args, kwargs):
        return p.derived('emission', [args[0].fields['root']], A.ALL)


def top(pr):
    def run(v):
        p = v.path
        markup = p.atom('markup')
        blog = p.choose(2, 'blog') == 0
        kw = dict(blog_line_breaks=blog)
        if p.choose(2, 'rules'):
            kw['block_rules'] = v.call(BlockRules, blog_line_breaks=blog)
        kw['debug'] = p.debug()
        try:
            r = v.call(creole.creole2html, markup, **kw)
        except TExc as e:
            v.decide(ALL, None, f'{e.cls.__name__} ({v.where()})')
            return
        passes = p.extra.get('blocks', [])
        v.decide(ALL, len(passes) == 1 or None, f'{len(passes)} passes over the text')
        for ps, text in passes:
            ok, why = project.equal(p, text, markup, D)
            v.decide(ALL, ok, why)
        ok = False
        if is_str(r):
            k = project.keep(r, D, skip=False)
            ok = len(k) == 1 and isinstance(k[0], int) and p.reg[k[0]].origin[0] == 'emission' and passes and p.reg[k[0]].origin[1] is passes[0][0].fields['root']
        v.decide(ALL, bool(ok) or None, f'{r!r}')

    pr.verify('creole2html', run, [ALL], models={**envp.parser_models(), DocNode.debug: lambda i, p, *a: None, **env.base_models()},
              contracts={CreoleParser.parse_block: Block(), HtmlEmitter.emit: Emit()})
