"""C04: preformatted text is emitted verbatim.

  * the parser: a match of {{{text}}} adds one node whose content is that text (block: without the ~ before }}}, which is
    checked against the pattern of the specification); all text that is parsed further is a part of the text of the match,
    only its ends are stripped; nodes that are in the tree keep their content;
  * the emitter: the node is emitted as <pre>..</pre> or <code>..</code> around its escaped content, every other element
    and the document hand over the emissions of their children unchanged (apart from whitespace around them);
  * the patterns: no alternative before the one for {{{ matches a text that begins with {{{, and its match ends at the first }}}."""
import html
import re
try:
    import re._parser as sp
except ImportError:
    import sre_parse as sp

import creole
from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent
from creole.parser.creol2html_parser import CreoleParser
from creole.parser.creol2html_rules import BlockRules
from creole.shared.document_tree import DocNode

from .. import automata as A
from .. import concrete
from ..explore import lang_of
from ..rematch import Match, new_match, parsed, sc
from ..values import S, Atom, Obj, Opaque, PathEnd, TExc, atom_of, is_str, key_of, parts_of, rope
from . import c02, c03, project
from . import env_creole as env
from . import env_edge as edge
from . import env_parser as envp
from .c01 import FlatContract, Html

W = A.SPACE
PRE = ('pre_block', 'pre_inline')
VERBATIM = 'the content of the node is the text between the braces'
ONE = 'one preformatted element is added for {{{'
HANDED = 'the text that is parsed is a part of the text of the match'
FRAME = 'nodes of the tree are not changed'
EMIT = 'the element is emitted with its escaped content'
PASSED = 'the emissions of the children are handed over unchanged'
KNOWN = 'a text in {{{ }}} is recognised as preformatted'
# the escape of braces in a block
PRE_ESCAPE = re.compile(r'^(?P<indent>\s*)~(?P<rest>\}\}\}\s*)$', re.M | re.X)
CONTENTS = ('  ', 'a', 'a  b', '\t', 'a\tb', '**b**', '<b>', '&lt;', '&', '"', '~a', ' a ', 'a|b', '\\\\', '//', "'", '\xa0', '=', '*', '\x0b', '\u3000', 'ä', '\x0c', '\x1c', '\x85', '\u2028', '\x7f')
WORDS = tuple('{{{' + c + '}}}' for c in CONTENTS) + tuple('x {{{' + c + '}}} y' for c in CONTENTS) + tuple('{{{\n' + c + '\n}}}' for c in CONTENTS) + ('x', '')


def prove(pr):
    calls = [(handler, (n, b)) for n, b in c03.patterns()] + [(whole_pass, (n,)) for n in ('parse_inline', 'parse_block')]
    calls += [(known, ()), (top, ()), (emit, ())] + [(emitted, (k,)) for k in env.KINDS if k not in env.MACROS]
    pr.units(calls)
    pr.trust('re', 'a match is some match of the parse tree of the pattern; a lazy repetition ends at the first place where the rest of the pattern matches; of the alternatives that match the first one is taken')
    pr.assume('the text with \\n, \\r\\n and \\r as line ends is read with \\n (C05)')
    pr.assume('a macro toc of the caller with methods of its own writes the document as it likes')
    pr.assume('the emission of a preformatted element does not contain << (its content is escaped): the table of contents does not replace it')


def peel(a, right):
    """an atom without the strip steps that keep braces"""
    while isinstance(a, Atom) and a.origin[0] in ('lstrip', 'rstrip') and (a.origin[2] is None or isinstance(a.origin[2], str) and not set(a.origin[2]) & set('{}')):
        ps = parts_of(a.origin[1])
        if len(ps) != 1 or isinstance(ps[0], str):
            break
        a = ps[0]
    return a


def tokens(t, ends=True):
    ps = list(parts_of(t))
    if ends and ps:
        for i, right in ((0, False), (-1, True)):
            if isinstance(ps[i], str):
                ps[i] = ps[i].rstrip() if right else ps[i].lstrip()
            else:
                ps[i] = peel(ps[i], right)
    out = []
    for x in ps:
        out += list(x) if isinstance(x, str) else [x.rid]
    return out


def part_of(p, t, whole):
    """-> (True / False / None, why): t is a part of whole, apart from whitespace at its ends"""
    if not is_str(t):
        return None, f'{t!r}'
    a, b = tokens(t), tokens(whole, False)
    if any(b[i:i + len(a)] == a for i in range(len(b) - len(a) + 1)):
        return True, ''

    def kept(t, w):
        return all(x in t for x in re.findall(r'\{\{\{[^}]*\}\}\}', w)) or '{{{' not in t
    d = concrete.violated(p, kept, [t, whole], words=WORDS)
    return (False if d else None), f'{t!r} is not a part of {whole!r} {d}'


class InlineContract(edge.InlineContract):
    def apply(self, interp, p, args, kwargs):
        raw = args[1] if len(args) > 1 else kwargs.get('raw')
        if is_str(raw):
            handed(p, raw)
        return super().apply(interp, p, args, kwargs)


def handed(p, t):
    """t is parsed: a part of the match, or of the match of the loop around"""
    whole = p.extra.get('whole')
    if whole is None:
        return
    inner = [o.spec.whole for o in p.reg if isinstance(o, Opaque) and isinstance(o.spec, Match) and o is not p.extra.get('match')]
    for w in [whole] + inner:
        a, b = tokens(t), tokens(w, False)
        if any(b[i:i + len(a)] == a for i in range(len(b) - len(a) + 1)):
            p.run.decide(HANDED, True)
            return
    ok, why = part_of(p, t, inner[-1] if inner else whole)
    p.run.decide(HANDED, ok, why)


def resub_hook(interp, pat, repl, text):
    p = interp.path
    r = edge.resub_hook(None)(interp, pat, repl, text)
    if r is not NotImplemented:
        handed(p, text)
    return r


def handler(pr, name, blog):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = False, False
        ps = edge.any_parser(v, blog, p.debug(), name in edge.INLINE)
        m = new_match(v.interp, p, c02.pattern(ps, name), p.atom('text'))
        p.extra['match'] = m
        whole = p.extra['whole'] = m.spec.whole
        try:
            v.call(CreoleParser._replace, ps, m)
        except TExc as e:
            v.decide(FRAME, None, f'{e.cls.__name__} ({v.where()})')
            return
        if not v.feasible():
            return
        gone = edge.removed(p)
        v.decide(FRAME, not gone or None, gone)
        first = parts_of(whole)[0] if parts_of(whole) else ''
        new = [o for o in p.reg if isinstance(o, Obj) and o.cls is DocNode and not o.meta.get('arbitrary') and not o.meta.get('old') and o.fields.get('kind') in PRE]
        if not (isinstance(first, str) and first.startswith('{{{')):
            v.decide(ONE, not new or None, f'{new!r}')
            return
        v.decide(ONE, len(new) == 1 or None, f'{new!r} for {whole!r}')
        if len(new) != 1:
            return
        node = new[0]
        v.decide(ONE, len([x for x in p.extra['edge'].top if x[1] is node]) == 1 and any(x is node for x in node.fields['parent'].fields['children'].items) or None, 'the node is not in the tree')
        for b in p.extra['edge'].bad:
            if 'is added to a ' in b:
                v.decide(ONE, None, b)
        ok, why = verbatim(p, node.fields['content'], whole, node.fields['kind'] == 'pre_block')
        v.decide(VERBATIM, ok, why)

    pr.verify(f'CreoleParser._replace[{name}{"" if blog else " wiki"}]', run, [VERBATIM, ONE, HANDED, FRAME],
              contracts=lambda v: {CreoleParser.parse_inline: InlineContract(v, None)}, models=envp.parser_models(), budget=150,
              hooks={'new': edge.new_hook, 'append': edge.append_hook, 'resub': resub_hook, 'sub_count': edge.count_hook(HANDED), 'iteration': unescaped})


def unescaped(interp):
    """a pass with a callback: the match without the ~, like the specification"""
    p = interp.path
    gone = edge.removed(p)
    if gone:
        p.run.decide(FRAME, None, f'in a loop: {gone}')
    it = p.extra.pop('sub_iter', None)
    if it is None:
        if 'loop_elem' in p.extra:
            src = p.extra['loop_elem'][0].src
            if isinstance(src, tuple) and src[0] == 'finditer' and 'whole' in p.extra:
                ok, why = part_of(p, src[2], p.extra['whole'])
                p.run.decide(HANDED, ok, why)
        return
    pat, text, m, r = it
    ps = list(parts_of(m.spec.whole))
    at = [i for i, x in enumerate(ps) if isinstance(x, str)]
    ok = None
    if same_pattern(pat) and is_str(r):
        lits = ''.join(x for x in ps if isinstance(x, str))
        if lits.count('~') == 1:
            i = next(i for i in at if '~' in ps[i])
            want = rope(*[S((x,)) if not isinstance(x, str) else x.replace('~', '') if k == i else x for k, x in enumerate(ps)])
            ok, why = concrete.same(p, r, want)
            if ok is not True:
                p.run.decide(VERBATIM, ok, f'{m.spec.whole!r} is replaced by {r!r}: {why}')
                return
    p.run.decide(VERBATIM, ok, f'{m.spec.whole!r} is replaced by {r!r}')


def tree(pat):
    return str(strip_groups(list(sp.parse(pat.pattern, pat.flags)))), pat.flags & (re.M | re.S | re.I | re.A)


def strip_groups(nodes):
    out = []
    for op, av in nodes:
        if op is sc.SUBPATTERN and not av[1] and not av[2]:
            out += strip_groups(list(av[3]))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            out.append((op, (av[0], av[1], strip_groups(list(av[2])))))
        elif op is sc.BRANCH:
            out.append((op, [strip_groups(list(b)) for b in av[1]]))
        else:
            out.append((op, av))
    return out


def same_pattern(pat):
    return tree(pat) == tree(PRE_ESCAPE)


def verbatim(p, content, whole, block):
    ps = list(parts_of(whole))
    if not (isinstance(ps[0], str) and isinstance(ps[-1], str) and ps[-1].endswith('}}}') and (len(ps) > 1 or len(ps[0]) >= 6)):
        return None, f'{whole!r}'
    if len(ps) == 1:
        ps = [ps[0][3:-3]]
    else:
        ps[0], ps[-1] = ps[0][3:], ps[-1][:-3]
    wants = [rope(*[x if isinstance(x, str) else S((x,)) for x in ps])]
    if block:
        while ps and (not ps[0] if isinstance(ps[0], str) else ps[0].lang <= project.star(W)):
            ps = ps[1:]
            wants.append(rope(*[x if isinstance(x, str) else S((x,)) for x in ps]))
    a = atom_of(content) if is_str(content) else None
    base = content
    if block:
        if a is not None and a.origin[0] == 'resub':
            if not same_pattern(a.origin[1]):
                return None, f'another pattern for the escape: {a.origin[1].pattern!r}'
            base = a.origin[2]
        elif a is not None and a.origin[0] == 're.sub':
            pat = re.compile(a.origin[1], a.origin[2])
            if not (same_pattern(pat) and template(pat, a.origin[3])):
                return None, f'another pattern for the escape: {pat.pattern!r}'
            base = a.origin[4]
        elif not (is_str(content) and (lang_of(content) & A.containing('~')).empty()):
            oks = [concrete.same(p, content, w) for w in wants]
            return (None, 'the ~ before }}} is not removed') if any(o[0] for o in oks) else (None, f'{content!r}')
    if not is_str(base):
        return None, f'{base!r}'
    base = rope(*[x if isinstance(x, str) else S((x,)) for x in parts_of(base)])
    res = [concrete.same(p, base, w) for w in wants]
    if any(r[0] is True for r in res):
        return True, ''
    if block:
        def ends(c, w):
            while re.match(r'\s*\n', w) and c != w:
                w = w[re.match(r'\s*?\n', w).end():]
            return c == w or c.strip() == w.strip()
        d = concrete.violated(p, ends, [base, wants[0]])
        return (False if d else None), f'{base!r} instead of {wants[0]!r} {d}'
    return res[0]


def template(pat, repl):
    """the template stands for all groups of the pattern in order"""
    if not isinstance(repl, str):
        return False
    try:
        t = sp.parse_template(repl, pat)
    except Exception:
        return False
    t = t[1] if isinstance(t, tuple) else t
    return [x for x in t if x not in ('', None)] in ([1, 2], [(0, 1), (1, 2)])


def whole_pass(pr, name):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = False, False
        ps = edge.any_parser(v, p.choose(2, 'blog') == 0, p.debug(), name == 'parse_inline')
        text = p.atom('text')
        p.extra['whole'] = text
        try:
            v.call(getattr(CreoleParser, name), ps, text)
        except TExc as e:
            v.decide(HANDED, None, f'{e.cls.__name__} ({v.where()})')
            return
        v.decide(HANDED, len(p.extra.get('passes', [])) == 1 or None, 'another number of passes')
    pr.verify(f'CreoleParser.{name}', run, [HANDED], models=envp.parser_models(), hooks={'new': edge.new_hook, 'append': edge.append_hook, 'resub': resub_hook, 'sub_count': edge.count_hook(HANDED)})


# ---------------------------------------------------------------- patterns
def flat(nodes):
    """the parts of a pattern without its groups"""
    out = []
    for op, av in nodes:
        if op is sc.SUBPATTERN:
            out += flat(list(av[3]))
        else:
            out.append((op, av))
    return out


def shape(nodes, block):
    """{{{ .. lazy repetition of any characters .. }}}: the match ends at the first }}}"""
    f = flat(nodes)
    if block and f and f[0][0] is sc.AT:
        f = f[1:]
    if f[:3] != [(sc.LITERAL, ord('{'))] * 3 or f[-3:] != [(sc.LITERAL, ord('}'))] * 3:
        return False
    f = f[3:-3]
    if block:
        if not f or f[-1] != (sc.AT, sc.AT_BEGINNING):
            return False
        f = f[:-1]
    if not f or f[-1][0] is not sc.MIN_REPEAT or f[-1][1][0] > 1 or f[-1][1][1] is not sc.MAXREPEAT:
        return False
    L = A.sre_lang(list(f[-1][1][2]), 0, 'under')
    any_ = A.chars(A.cs_norm(A.FULL))
    if not (any_ - A.lit('\n') if not block else any_) <= L:
        return False
    if not block:
        return len(f) == 1
    return True


def known(pr):
    def run(v):
        start = A.lit('{{{') + A.ALL
        for name, block in (('inline_re', False), ('block_re', True), ('block_re', True)):
            for blog in (True, False) if block else (True,):
                rules = BlockRules(blog_line_breaks=blog)
                pat = re.compile('|'.join(rules.rules), rules.re_flags) if block else getattr(CreoleParser, name)
                flags = parsed(pat).state.flags
                seen = False
                for nodes in c03.alternatives(pat):
                    f = flat(nodes)
                    if f and f[0][0] is sc.AT:
                        f = f[1:]
                    if f[:3] == [(sc.LITERAL, ord('{'))] * 3:
                        v.decide(KNOWN, shape(nodes, block) or None, f'{name}: the match does not end at the first }}}}}}')
                        seen = True
                        break
                    L = A.sre_lang([n for n in nodes if n[0] is not sc.AT], flags, 'over')
                    if block and not (L & start).empty():
                        # an empty line is no opening line
                        L = A.sre_lang(nodes, flags, 'over') if (L <= project.star(W)) else L
                        if L <= project.star(W):
                            continue
                    v.decide(KNOWN, (L & start).empty() or None, f'{name}: {nodes!r} matches {{{{{{')
                v.decide(KNOWN, seen or None, f'{name}: no alternative for {{{{{{')
                for c in CONTENTS:
                    # the pattern itself is concrete
                    want, rest = ('{{{\n' + c + '\n}}}', '\nx\n}}}\n') if block else ('{{{' + c + '}}}', ' x }}} y')
                    m = pat.match(want + rest)
                    got = m and m.group()
                    v.decide(KNOWN, got == want, f'{name} matches {got!r} at the beginning of {want + rest!r}')
    pr.verify('the patterns of CreoleParser', run, [KNOWN], budget=150)


# ---------------------------------------------------------------- the emitter
def emitted(pr, kind):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = kind in PRE, True
        em = env.any_emitter(v, verbose_max=2)
        node = env.arb(p, kind=kind, parent=None if kind == 'document' else env.arb(p))
        p.extra['first_node'] = node
        content = v.interp.getattr(node, 'content') if kind in PRE else None
        ob = EMIT if kind in PRE else PASSED
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc as e:
            v.decide(ob, None, f'{e.cls.__name__} ({v.where()})')
            return
        if not is_str(r):
            v.decide(ob, None, f'{r!r}')
            return
        if kind in PRE:
            ok, why = pre(p, r, content)
            v.decide(EMIT, ok, why)
        elif kind in edge.CONTAINERS:
            got = project.keep(r, W, skip=False)
            ks = [x for x in got if isinstance(x, tuple)]
            ok = ks == [('children', node.rid)] or not ks and project.known_blank(p, node, W)
            v.decide(PASSED, ok or (False if project.incomplete(p, got) else None), f'{r!r}: {c03.named(p, got)}')
        else:
            v.decide(PASSED, True)
        gone = edge.removed(p)
        v.decide(ob, not gone or None, gone)
    pr.verify(f'HtmlEmitter.emit_node[{kind}]', run, [EMIT if kind in PRE else PASSED], contracts={HtmlEmitter.emit_node: c03.Emitted()}, models=env.base_models(),
              hooks={'iteration': project.pieces_hook(W)})


def pre(p, r, content):
    ps = list(parts_of(r))
    head = re.match(r'\s*<(pre|code)(\s[^<>]*)?>\Z', ps[0]) if ps and isinstance(ps[0], str) else None
    tag = head and head.group(1)
    ok = None
    if is_str(content) and not parts_of(content):
        ok = bool(re.fullmatch(r'\s*<(pre|code)(\s[^<>]*)?></\1>\s*', ''.join(x if isinstance(x, str) else '' for x in ps))) and all(isinstance(x, str) for x in ps)
    elif head and isinstance(ps[-1], str) and re.fullmatch(rf'</{tag}>\s*', ps[-1]) and len(ps) == 3:
        c = project.escaped(ps[1])
        ok = c is not None and key_of(c) == key_of(content) and needed(ps[1])
    if ok:
        return True, ''

    def verbatim(r, c):
        m = re.fullmatch(r'\s*<(pre|code)(?:\s[^<>]*)?>([^<]*)</\1>\s*', r)
        return m is not None and html.unescape(m.group(2)) == c
    d = concrete.violated(p, verbatim, [r, content])
    return (False if d else None), f'{r!r}: {d}'


def needed(a):
    """& and < are escaped"""
    done = set()
    while a is not None and a.origin[0] == 'replace':
        done.add(a.origin[2])
        a = atom_of(a.origin[1])
    return {'&', '<'} <= done


def emit(pr):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = False, True
        em = env.any_emitter(v, verbose_max=2)
        root = em.fields['root']
        if not (em.fields['toc'] is None or isinstance(em.fields['toc'], Obj)):
            raise PathEnd()     # a macro of the user writes the document
        try:
            r = v.call(HtmlEmitter.emit, em)
        except TExc as e:
            v.decide(PASSED, None, f'{e.cls.__name__} ({v.where()})')
            return
        a = atom_of(r) if is_str(r) else None
        while a is not None and a.origin[0] == 'replace' and isinstance(a.origin[2], str) and '<<' in a.origin[2]:
            r = a.origin[1]
            a = atom_of(r)
        got = project.keep(r, W, skip=False) if is_str(r) else []
        ok = len(got) == 1 and isinstance(got[0], int) and p.reg[got[0]].origin[0] == 'emit' and p.reg[got[0]].origin[1] is root
        ok = ok or not got and any(isinstance(x, Atom) and x.origin[0] == 'emit' and x.origin[1] is root and x.lang <= project.star(W) for x in p.reg)
        v.decide(PASSED, ok or None, f'{r!r}')

    class E(c03.Emitted):
        def apply(self, interp, p, args, kwargs):
            return p.derived('emit', [args[1]], A.ALL, tags=('emit',))
    pr.verify('HtmlEmitter.emit', run, [PASSED], contracts={HtmlEmitter.emit_node: E(), TableOfContent.nested_headlines2html: Html(), TableOfContent.flat_list2nest_list: FlatContract()}, models=env.base_models())


def top(pr):
    def run(v):
        p = v.path
        project.ESC, project.ENDS = False, True
        markup = p.atom('markup')
        blog = p.choose(2, 'blog') == 0
        try:
            r = v.call(creole.creole2html, markup, blog_line_breaks=blog, debug=p.debug())
        except TExc as e:
            v.decide(PASSED, None, f'{e.cls.__name__} ({v.where()})')
            return
        passes = p.extra.get('blocks', [])
        v.decide(HANDED, len(passes) == 1 or None, f'{len(passes)} passes over the text')
        for ps, text in passes:
            t = text
            while is_str(t) and atom_of(t) is not None and atom_of(t).origin[0] == 'replace' and isinstance(atom_of(t).origin[2], str) and '\r' in atom_of(t).origin[2]:
                t = atom_of(t).origin[1]
            ok, why = part_of(p, t, markup)
            v.decide(HANDED, ok, why)
        k = project.keep(r, W, skip=False) if is_str(r) else []
        ok = len(k) == 1 and isinstance(k[0], int) and p.reg[k[0]].origin[0] == 'emission' and passes and p.reg[k[0]].origin[1] is passes[0][0].fields['root']
        v.decide(PASSED, bool(ok) or None, f'{r!r}')

    pr.verify('creole2html', run, [HANDED, PASSED], models={**envp.parser_models(), DocNode.debug: lambda i, p, *a: None, **env.base_models()},
              contracts={CreoleParser.parse_block: c03.Block(), HtmlEmitter.emit: c03.Emit()})
