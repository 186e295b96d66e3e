"""C20: the arguments of a macro tag reach the macro exactly as written.

string2dict: the entry written for an arbitrary word of the tag is the one of the specification `entry` below;
the parser hands name, arguments and text of the tag on unchanged (stripped); macro_emit calls the macro that has
this name exactly once with these arguments plus the text."""
import shlex

from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent
from creole.parser.creol2html_parser import CreoleParser
from creole.shared import utils
from creole.shared.document_tree import DocNode

from .. import automata as A
from ..explore import lang_of
from ..rematch import new_match
from ..values import S, SB, SI, Obj, PathEnd, SDict, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, parts_of, rope
from . import env_creole as env
from . import env_parser as envp
from .. import models
from .c02 import pattern, shlex_model


def prove(pr):
    pr.units([(s2d, ()), (call, ('macro_inline',)), (call, ('macro_block',)), (tags, ('inline_re', True)), (tags, ('block_re', True)),
              (tags, ('block_re', False))])
    pr.trust('shlex.split', 'splits into words and resolves quotes; ValueError for an unclosed quote')
    pr.trust('re', 'a match of a pattern of the repository is some match of its parse tree (superset of the real matches)')
    pr.assume('emit_node is called exactly once for every node of the document (C03)')


def entry(interp, part):
    """specification: key and value of one word -> (key, value), or None when the word is malformed"""
    p = interp.path
    r = models.cut(interp, part, '=')
    if r is None:
        return None
    key, word = r
    for w, v in (('True', True), ('False', False), ('None', None)):
        if models.truth(interp, models.eq(interp, word, w)):
            return key, v
    try:
        return key, models.b_int(interp, p, models.s_strip(interp, p, word, "'\""))
    except TExc as e:
        if not issubclass(e.cls, ValueError):
            raise
        return key, word


def s2d(pr):
    name = 'string2dict'

    def run(v):
        p = v.path
        raw = p.atom('raw')
        p.extra['raw'] = raw
        n0 = len(p.trace)
        try:
            r = v.call(utils.string2dict, raw)
        except TExc as e:
            # malformed: an unclosed quote, or the current word has no `=`
            part = p.extra.get('part')
            mal = p.extra.get('badquote') or (part is not None and entry(v.interp, part) is None)
            v.require('ValueError for malformed tags only', issubclass(e.cls, ValueError) and bool(mal), f'{e.cls} for {part!r} ({v.where()})')
            return
        v.require('one entry per word', isinstance(r, SDict) and not r.d, f'{r!r}')
        v.require('an unclosed quote is malformed', not p.extra.get('badquote'), 'no exception')

    def shlex_(interp, p, s, *a, **kw):
        from ..concrete import same
        p.run.same('the tag is split by shlex', s, p.extra['raw'])
        if a or kw:
            p.run.require('the tag is split by shlex', False, 'with options')
        if p.choose(2, 'shlex') == 1:
            p.extra['badquote'] = True
            interp.throw(ValueError, 'No closing quotation')

        def el(i, pp):
            pp.extra['part'] = pp.atom('part', A.ALL, ('shlex', s))
            pp.extra['mark'] = len(pp.log)
            return pp.extra['part']
        return p.slist([Seg('src', elem=el, name='parts', src=('shlex', s))])

    def iteration(interp):
        p = interp.path
        v = p.run
        part = p.extra.get('part')
        if part is None:
            raise Unsupported('loop over something else')
        writes = [e for e in p.log[p.extra['mark']:] if e[0] == 'd' and len(e) > 5]
        if not v.feasible():
            return
        want = entry(interp, part)
        if want is None:
            v.require('a word without = is malformed', False, f'no exception for {part!r}')
            return
        v.require('one entry per word', len(writes) == 1, f'{len(writes)} entries are written')
        if len(writes) == 1:
            v.same('key', writes[0][4], want[0])
            v.same('value', writes[0][5], want[1])
            p.extra['entries'] = True
    pr.verify(name, run, ['one entry per word', 'key', 'value', 'ValueError for malformed tags only', 'a word without = is malformed',
                          'an unclosed quote is malformed', 'the tag is split by shlex'],
              models={shlex.split: shlex_}, hooks={'iteration': iteration})


def call(pr, kind):
    label = f'HtmlEmitter.emit_node[{kind}]'
    obs = ['called exactly once', 'the macro of this name', 'arguments', 'text', 'not called for malformed arguments']

    def run(v):
        p = v.path
        em = env.any_emitter(v, verbose_max=2)
        node = env.arb(p, kind=kind, parent=env.arb(p))
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc:
            return      # C02
        calls = [t for t in p.trace if t[0] == 'macro']
        looked = [t for t in p.trace if t[0] == 'lookup']
        parsed = p.extra.get('parsed', [])
        toc = [t for t in p.trace if t[0] == 'toccall']
        if p.extra.get('malformed'):
            v.require('not called for malformed arguments', not calls and not toc, f'{calls!r}')
            return
        if len(parsed) != 1:
            v.require('arguments', False, f'string2dict was called {len(parsed)} times')
            return
        v.same('arguments', parsed[0][0], v.interp.getattr(node, 'macro_args'), 'argument of string2dict')
        ismacro = [t[3] for t in looked if concrete_same(p, t[2], v.interp.getattr(node, 'macro_name'))]
        if not calls and not toc:
            # only when the macro does not exist
            v.require('called exactly once', not ismacro and is_notice(em, p, r), f'not called, result {r!r}')
            return
        v.require('called exactly once', len(calls) + len(toc) == 1, f'{len(calls)} calls')
        c = (calls + toc)[0]
        if calls:
            v.require('the macro of this name', any(c[1] is m for m in ismacro), f'{c!r} {looked!r} {lang_of(node.fields["macro_name"]).finite_words()}')
        else:
            v.same('the macro of this name', v.interp.getattr(node, 'macro_name'), 'toc')
        d = c[3].get('**')
        v.require('arguments', not c[2] and set(c[3]) == {'**'} and isinstance(d, SDict), f'{c[2:]!r}')
        if isinstance(d, SDict):
            v.require('arguments', d is parsed[0][1] or d.sym is parsed[0][1].sym, 'not the result of string2dict')
            v.require('arguments', set(d.d) <= {'text'}, f'{list(d.d)} in addition')
            v.require('text', 'text' in d.d, 'no text')
            if 'text' in d.d:
                v.same('text', d.d['text'], v.interp.getattr(node, 'content'))
    def s2d_(interp, p, s):
        d = None
        try:
            d = env.string2dict_contract(interp, p, s)
        except TExc:
            p.extra['malformed'] = True
            raise
        finally:
            p.extra.setdefault('parsed', []).append((s, d))
        return d

    def toccall(interp, p, toc, *a, **kw):
        p.trace.append(('toccall', toc, a, kw))
        return NotImplemented

    class TocCall:
        def apply(self, interp, p, args, kwargs):
            p.trace.append(('toccall', args[0], args[1:], kwargs))
            return NotImplemented
    pr.verify(label, run, obs, models={**env.base_models(), utils.string2dict: s2d_}, contracts={TableOfContent.__call__: TocCall()})


def concrete_same(p, a, b):
    from ..concrete import same
    return same(p, a, b)[0] is True


def merged(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return [key_of(x) for x in out]


def is_notice(em, p, r):
    return r == '' or (is_str(r) and parts_of(r) and isinstance(parts_of(r)[0], str) and parts_of(r)[0].startswith('[Error: '))


# ---------------------------------------------------------------- parser
GROUPS = {'macro_block': ('macro_block_start', 'macro_block_args', 'macro_block_text', 'macro_block'),
          'macro_inline': ('macro_inline_start', 'macro_inline_args', 'macro_inline_text', 'macro_inline'),
          'macro_tag': ('macro_tag_name', 'macro_tag_args', None, 'macro_inline')}


def blank(x):
    return not isinstance(x, str) and x.lang <= A.chars_star(A.SPACE)


def tags(pr, name, blog):
    """a macro tag becomes exactly one node with its name, stripped arguments and stripped text"""
    kinds = ('macro_block',) if name == 'block_re' else ('macro_inline', 'macro_tag')

    def run(v):
        p = v.path
        ps = envp.any_parser(v, blog, False)
        m = new_match(v.interp, p, pattern(ps, name), p.atom('text'))
        w = m.spec.w
        gd = w.pat.groupindex
        kind = [k for k in kinds if k in gd and w.groups.get(gd[k]) is not None]
        if len(kind) != 1:
            raise PathEnd()
        kind = kind[0]
        gname, gargs, gtext, nkind = GROUPS[kind]
        nm, ar = w.value(gd[gname]), w.value(gd[gargs])
        tx = w.value(gd[gtext]) if gtext else None
        # shape of the tag
        shape = []
        for x in parts_of(w.value(gd[kind])):
            if isinstance(x, str):
                if x.strip():
                    shape.append(x.strip())
            elif not blank(x):
                shape.append(S((x,)))
        want = ['<<', nm, ar, '>>'] + ([tx, '<</', nm, '>>'] if gtext else [])
        want = [q for y in want for q in ([S((z,)) if not isinstance(z, str) else z for z in parts_of(y)])]
        if not gtext:
            shape = [x for x in shape if not (isinstance(x, S) and lang_of(x) <= A.chars_star(A.cs_norm(A.SPACE + A.cs_chars('/'))))]
        v.decide('shape of the tag', merged(shape) == merged(want) or None, f'{shape!r} instead of {want!r}')
        n0 = len(p.reg)
        try:
            v.call(CreoleParser._replace, ps, m)
        except TExc:
            return
        new = [o for o in p.reg[n0:] if isinstance(o, Obj) and o.cls is DocNode and not o.meta.get('arbitrary')]
        v.require('one node per tag', len(new) == 1 and new[0].fields.get('kind') == nkind, f'{new!r}')
        if len(new) != 1:
            return
        f = new[0].fields
        st = lambda s: models.s_strip(v.interp, p, s)
        v.same('name', f.get('macro_name'), nm)
        v.same('arguments', f.get('macro_args'), st(ar))
        v.same('text', f.get('content'), st(tx) if gtext else None)
    obs = ['shape of the tag', 'one node per tag', 'name', 'arguments', 'text']
    pr.verify(f'CreoleParser._replace[{name}{"" if blog else " wiki"}, macro tags]', run, obs, models=envp.parser_models(), hooks={'new': envp.new_hook},
              contracts=lambda v: {CreoleParser.parse_inline: envp.InlineContract(v)})
