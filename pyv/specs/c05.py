"""C05: the line-ending convention does not matter.

1. creole2html hands to the block parser a text N(markup) with N(s) == N(s with CR LF) == N(s with CR) for every s
   without CR (decided by an equivalence check of the rewrites as transducers), and nothing else of the document, the
   parser state that handlers read, or the emitter depends on the markup.
2. no handler reads a field of the parser that depends on the original text."""
import random

import creole
from creole.emitter.creol2html_emitter import HtmlEmitter
from creole.parser.creol2html_parser import CreoleParser
from creole.parser.creol2html_rules import BlockRules
from creole.shared.document_tree import DocNode

from .. import concrete, transduce
from ..rematch import new_match
from ..values import S, Atom, Obj, PathEnd, SDict, Seg, SList, TExc, Unsupported, is_str, parts_of
from . import c02
from . import env_creole as env
from . import env_parser as envp

HOMS = {'LF': {}, 'CR LF': {'\n': '\r\n'}, 'CR': {'\n': '\r'}}


def prove(pr):
    pr.units([(top, ())] + [(handlers, (n, b)) for n, b in (('inline_re', True), ('block_re', True), ('block_re', False), ('item_re', True), ('link_re', True))]
             + [(loop, (n,)) for n in ('parse_inline', 'parse_block')])
    pr.trust('re', 'the matches of a pattern depend on the pattern and the text only')
    pr.assume('a conversion depends on its arguments only (C07): the same text given to the block parser gives the same HTML')


def depends(v, raw, seen=None):
    """v is made from the atom raw"""
    seen = set() if seen is None else seen
    if isinstance(v, Atom):
        if v is raw or v.rid == raw.rid and v.name == raw.name:
            return True
        if (v.rid, v.name) in seen:
            return False
        seen.add((v.rid, v.name))
        return any(depends(x, raw, seen) for x in v.origin)
    if isinstance(v, S):
        return any(depends(x, raw, seen) for x in v.parts if not isinstance(x, str))
    if isinstance(v, (list, tuple)):
        return any(depends(x, raw, seen) for x in v)
    if isinstance(v, SList):
        return depends(v.items, raw, seen)
    if isinstance(v, Seg):
        return depends(getattr(v, 'src', None), raw, seen) or any(depends(x, raw, seen) for x in v.alts or ())
    if isinstance(v, SDict):
        return depends(list(v.d.values()), raw, seen)
    return False


def chain(v, raw):
    """v as a chain of rewrites of raw"""
    if not isinstance(v, S) or len(v.parts) != 1 or isinstance(v.parts[0], str):
        raise Unsupported('not a rewrite of the text')
    a = v.parts[0]
    if a is raw:
        return []
    o = a.origin
    if o[0] == 'replace' and isinstance(o[2], str) and isinstance(o[3], str) and o[4] == -1:
        return chain(o[1], raw) + [transduce.replace(o[2], o[3])]
    if o[0] == 're.sub' and isinstance(o[3], str):
        return chain(o[4], raw) + [transduce.Rewrite(o[1], o[2], o[3])]
    raise Unsupported(f'{o[0]}')


def normalised(p, v, raw):
    """-> (True/False/None, text): v is the same for the three line-ending conventions"""
    if not depends(v, raw):
        return True, ''
    try:
        ch = chain(v, raw)
        chars = {c for t in ch for c in t.chars} - {'\r'} | {'\n', transduce.OTHER}
        for name in ('CR LF', 'CR'):
            w = transduce.equal(ch, [transduce.Hom(HOMS[name])] + ch, sorted(chars))
            if w != '':
                return False, f'the text {w!r} with {name} is parsed as {transduce.run([transduce.Hom(HOMS[name])] + ch, [t.start for t in [transduce.Hom({})] + ch], w or "", True)[1]!r}'
        return True, ''
    except Unsupported as e:
        why = str(e)
    # not a chain of rewrites that can be decided: look for a text
    rng = random.Random(5)
    long = ['\n' * 20000, 'a\n' * 20000, '\n' + 'a' * 30000 + '\n', '{{{\n' + 'a \n' * 3000 + '\n}}}\n']
    for n in range(3000):
        s = ''.join(rng.choice('\n\n a\x0b\x0c\x1c\x85\u2028=*|') for _ in range(rng.randrange(8)))
        if n % 500 == 7 and long:
            s = long.pop()
        vals = []
        for h in HOMS.values():
            e = concrete.Env(p, rng)
            e.val[raw.rid] = ''.join(h.get(c, c) for c in s)
            try:
                vals.append(e.value(v))
            except (concrete.NoValue, Unsupported):
                return None, why
        if len(set(vals)) > 1:
            return False, f"{s[:80]!r} becomes {repr(vals)[:300]}"
    return None, why


def top(pr):
    obs = ['the parsed text does not depend on the line ends', 'nothing else depends on the text']

    def run(v):
        p = v.path
        markup = p.atom('markup')
        raw = parts_of(markup)[0]
        p.extra['raw'] = raw
        blog = p.choose(2, 'blog') == 0
        kw = dict(blog_line_breaks=blog)
        if p.choose(2, 'rules'):
            kw['block_rules'] = v.call(BlockRules, blog_line_breaks=blog)
        kw['debug'] = p.debug()
        try:
            v.call(creole.creole2html, markup, **kw)
        except TExc:
            return
        v.decide('the parsed text does not depend on the line ends', p.extra.get('parsed') == 1 or None, f'the block parser ran {p.extra.get("parsed")} times')

    def resub(interp, pat, repl, text):
        p = interp.path
        v = p.run
        raw = p.extra['raw']
        p.extra['parsed'] = p.extra.get('parsed', 0) + 1
        ok, why = normalised(p, text, raw)
        v.decide('the parsed text does not depend on the line ends', ok, why)
        for o in list(p.reg):
            if isinstance(o, Obj) and o.cls is DocNode:
                for k, x in o.fields.items():
                    ok, why = normalised(p, x, raw) if is_str(x) else (not depends(x, raw), 'container')
                    v.decide('nothing else depends on the text', ok, f'{k} of {o!r}: {why}')
        for o in p.reg:
            if isinstance(o, Obj) and o.cls is CreoleParser:
                envp.havoc_parser(p, o)
                envp.grow_children(p, o.fields['root'])
        return ''

    class Init:
        def apply(self, interp, p, args, kwargs):
            v = p.run
            for x in list(args[1:]) + list(kwargs.values()):
                if is_str(x) or x is None or not isinstance(x, (Obj, SList, SDict)):
                    ok, why = normalised(p, x, p.extra['raw'])
                    v.decide('nothing else depends on the text', ok, f'argument of HtmlEmitter: {why}')
                elif isinstance(x, Obj) and x.cls is DocNode:
                    for k, y in x.fields.items():
                        v.decide('nothing else depends on the text', not depends(y, p.extra['raw']) or None, f'{k} of the document')
            return NotImplemented
    pr.verify('creole2html', run, obs, models={**envp.parser_models(), DocNode.debug: lambda i, p, *a: None, **env.base_models()},
              contracts={HtmlEmitter.__init__: Init(), HtmlEmitter.emit: c02.EmitContract()}, hooks={'resub': resub})


def watched(v, blog, debug):
    """a parser in any state; fields that depend on the original text in a way that is not normalised are watched"""
    p = v.path
    ps = envp.any_parser(v, blog, debug)
    raw = next(a for a in p.reg if isinstance(a, Atom) and a.name == 'raw')
    bad = {}
    for k, x in ps.fields.items():
        if depends(x, raw) and normalised(p, x, raw)[0] is not True:
            bad[k] = x

    def watch(interp, o, name):
        if name in bad and any(f.func.qualname for f in interp.frames):
            v.decide('the original text is not read', False, f'self.{name} ({v.where()})')
    ps.meta['watch'] = watch
    return ps


def handlers(pr, name, blog):
    def run(v):
        p = v.path
        ps = watched(v, blog, p.debug())
        m = new_match(v.interp, p, c02.pattern(ps, name), p.atom('text'))
        p.extra['first'] = m
        try:
            v.call(CreoleParser._replace, ps, m)
        except TExc:
            pass
        v.require('the original text is not read', True)

    def contracts(v):
        return {CreoleParser.parse_inline: envp.InlineContract(Quiet(v)), CreoleParser._replace: envp.ReplaceContract(Quiet(v), first=True)}
    pr.verify(f'CreoleParser._replace[{name}{"" if blog else " wiki"}]', run, ['the original text is not read'], contracts=contracts, models=envp.parser_models(),
              hooks={'new': envp.new_hook})


class Quiet:
    """the tree invariants are obligations of C02"""

    def __init__(self, v):
        self.v = v
        self.path = v.path

    def require(self, *a):
        pass

    def feasible(self):
        return False

    def where(self):
        return ''


def loop(pr, name):
    def run(v):
        p = v.path
        ps = watched(v, True, p.debug())
        try:
            v.call(getattr(CreoleParser, name), ps, p.atom('text'))
        except TExc:
            pass
        v.require('the original text is not read', True)
    pr.verify(f'CreoleParser.{name}', run, ['the original text is not read'], contracts=lambda v: {CreoleParser._replace: envp.ReplaceContract(Quiet(v))},
              models=envp.parser_models(), hooks={'new': envp.new_hook})
