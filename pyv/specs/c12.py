"""C12: entity decoding inverts escaping and decodes exactly once.

Deentity.replace_all is one re.sub over its argument; its pattern matches exactly the references REF; the text put for
an arbitrary match is value(reference), the specification below.  The lemmas about REF (no reference contains a
second `&`, none is a proper prefix of another, escape() maps every character to a reference of it) give the
statement for whole strings."""
import html
from html.entities import name2codepoint
from xml.sax.saxutils import escape as sax_escape

from creole.html_tools.deentity import Deentity, entities_regex

from .. import automata as A
from .. import models
from ..concrete import same
from ..explore import lang_of
from ..values import S, SI, Obj, PathEnd, TExc, Unsupported, atom_of, is_str, key_of, parts_of, rope
from . import env_html as env

NUMBER = A.lit('&#') + A.rx(r'\d+') + A.lit(';')
ASCII_NUMBER = A.rx(r'&\#[0-9]+;')
HEXA = A.rx(r'&\#[xX][0-9a-fA-F]+;')
NAMED = A.rx(r'&[a-zA-Z][a-zA-Z0-9]*;')
REF = ASCII_NUMBER | HEXA | NAMED


def prove(pr):
    pr.units([(replace_all, ()), (lemmas, ())] + [(method, (w, m)) for w in env.EMITTERS for m in ('charref_emit', 'entityref_emit', 'data_emit', 'blockdata_pre_emit', 'inlinedata_pre_emit')])
    pr.trust('re', 'sub() replaces the leftmost matches from left to right in one pass and copies all other text')
    pr.trust('html.parser', 'hands every reference of the text to handle_charref / handle_entityref once')
    pr.assume('the text of <pre><code>..</code></pre> in html2markdown (parsed a second time as html) is covered by the bounded part')


def char(interp, n):
    """chr(n), or None when there is no such character"""
    p = interp.path
    try:
        return models.b_chr(interp, p, n)
    except TExc as e:
        if not issubclass(e.cls, (ValueError, OverflowError)):
            raise
        return None


def number(interp, digits, *base):
    try:
        return char(interp, models.b_int(interp, interp.path, digits, *base))
    except TExc as e:
        if not issubclass(e.cls, ValueError):
            raise
        return None


def named(interp, name):
    p = interp.path
    if models.truth(interp, models.eq(interp, name, 'nbsp')):
        return ' '
    d = interp.lift(name2codepoint)
    if models.dict_has(interp, d, name):
        return char(interp, models.dict_get(interp, d, name))
    return None


def value(interp, ref):
    """specification: the text for one reference, or None when it denotes no character"""
    ps = parts_of(ref)
    if len(ps) < 2 or not isinstance(ps[0], str) or ps[-1] != ';' or not ps[0].startswith('&'):
        return NotImplemented
    inner = rope(ps[0][1:], *[x if isinstance(x, str) else S((x,)) for x in ps[1:-1]])
    L = lang_of(ref)
    if L <= HEXA:
        ds = S(parts_of(inner)[-1:]) if not isinstance(parts_of(inner)[-1], str) else parts_of(inner)[-1]
        return number(interp, ds, 16)
    if L <= NAMED:
        return named(interp, inner)
    if L <= NUMBER:
        ds = S(parts_of(inner)[-1:])
        return number(interp, ds)
    return NotImplemented


def replace_all(pr):
    obs = ['one pass over the text', 'every reference is found, nothing else', 'the reference is replaced by its character', 'the result is the result of the pass', 'raises nothing']

    def run(v):
        p = v.path
        d = v.call(Deentity)
        c = p.atom('content')
        p.extra['content'] = c
        try:
            r = v.call(Deentity.replace_all, d, c)
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls} ({v.where()})')
            return
        v.require('raises nothing', True)
        a = atom_of(r) if is_str(r) and not isinstance(r, str) else None
        ok = a is not None and a.origin[0] == 'resub' and key_of(a.origin[2]) == key_of(c)
        v.decide('the result is the result of the pass', ok or False, f'{r!r}: {getattr(a, "origin", None)}')

    def on_match(interp, m, pat, text):
        p = interp.path
        p.run.same('one pass over the text', text, p.extra['content'])
        if p.extra.get('pattern') is None:
            p.extra['pattern'] = pat
            L = A.regex(pat.pattern, pat.flags)
            lost = (REF - L)
            p.run.require('every reference is found, nothing else', lost.empty(), f'{lost.word() if not lost.empty() else ""!r} is not found')
            more = L - (REF | NUMBER)
            p.run.require('every reference is found, nothing else', more.empty(), f'{more.word() if not more.empty() else ""!r} is no reference')

    def iteration(interp):
        p = interp.path
        v = p.run
        it = p.extra.get('sub_iter')
        if it is None:
            raise Unsupported('another loop')
        pat, text, m, r = it
        whole = m.spec.whole
        p.extra['sub_iter'] = None
        want = value(interp, whole)
        if want is NotImplemented:
            v.decide('the reference is replaced by its character', None, f'kind of {whole!r}')
            return
        v.same('the reference is replaced by its character', r, whole if want is None else want, f'for {whole!r}')
    def limited(interp, pat, repl, text, count):
        p = interp.path
        if key_of(text) == key_of(p.extra['content']):
            p.run.require('every reference is found, nothing else', False, f'the references after the first {count} are not replaced')
            return True

    pr.verify('Deentity.replace_all', run, obs, hooks={'match': on_match, 'iteration': iteration, 'sub_count': limited})


def lemmas(pr):
    amp = A.chars(A.cs_neg(A.cs_chars('&')))
    obs = ['no reference contains a second &', 'no reference is a proper prefix of another', 'escape gives references of the escaped characters']

    def run(v):
        rest = A.lit('&') + amp.star()
        R = REF | NUMBER
        v.require('no reference contains a second &', R <= rest)
        pre = R + A.chars(A.FULL) + A.ALL
        v.require('no reference is a proper prefix of another', (pre & R).empty(), 'prefix')
        d = Deentity()
        for f in (html.escape, lambda s: html.escape(s, quote=False), sax_escape):
            for c in '&<>"\'':
                e = f(c)
                ok = e == c or REF.has(e) and d.replace_all(e) == c and decode(e) == c
                v.require('escape gives references of the escaped characters', ok and (e != c or c != '&'), f'{c!r} -> {e!r} -> {d.replace_all(e)!r}')

    pr.verify('lemma', run, obs)
    pr.trust('html.escape', 'replaces & < > (and quotes) and nothing else')


def decode(ref):
    if ref.startswith('&#x'):
        return chr(int(ref[3:-1], 16))
    if ref.startswith('&#'):
        return chr(int(ref[2:-1]))
    return chr(name2codepoint[ref[1:-1]])


def method(pr, which, name):
    kind = name[:-len('_emit')]
    cls = env.EMITTERS[which]
    label = f'{cls.__name__}.emit_node[{kind}]'
    obs = ['raises nothing', 'the reference is replaced by its character' if kind in ('charref', 'entityref') else
           ('text is written unchanged' if kind == 'data' else 'references are decoded exactly once')]

    def run(v):
        p = v.path
        em = env.any_emitter(v, which)
        node = env.arb(p, kind=kind, is_internal=True, parent=env.arb(p))
        c = v.interp.getattr(node, 'content')
        if which == 'markdown' and kind == 'inlinedata_pre':
            if p.fork_lang(atom_of(c), A.ALL + A.lit('</code>'), 'code'):
                raise PathEnd()
        try:
            r = v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls} ({v.where()})')
            return
        v.require('raises nothing', True)
        if kind == 'data':
            if which == 'markdown' and r == '' and lang_of(c) <= A.chars_star(A.SPACE):
                return
            v.same(obs[1], r, c)
        elif kind == 'entityref':
            want = named(v.interp, c)
            v.same(obs[1], r, rope('&', c) if want is None else want, f'for {c!r}')
        elif kind == 'charref':
            if p.fork_lang(atom_of(c), A.rx('[xX]') + A.ALL, 'hex'):
                want = number(v.interp, models.getitem(v.interp, c, slice(1, None, None)), 16)
            else:
                want = number(v.interp, c)
            v.same(obs[1], r, rope('&#', c, ';') if want is None else want, f'for {c!r}')
        else:
            ds = [x for x in p.reg if getattr(x, 'origin', ('',))[0] == 'deentity']
            v.decide(obs[1], False if len(ds) != 1 else True if key_of(ds[0].origin[1]) == key_of(c) else None, f'{len(ds)} calls of replace_all')
            if len(ds) == 1:
                if which == 'rest' and kind == 'blockdata_pre':
                    from .c05 import depends
                    blank = ds[0].lang <= A.chars_star(A.SPACE)
                    v.decide(obs[1], blank or depends(r, ds[0]) and not any(x is atom_of(c) for x in parts_of(r)), f'{r!r}')
                else:
                    n = [x for x in parts_of(r) if x is ds[0]]
                    v.decide(obs[1], len(n) == 1, f'{r!r}')
    pr.verify(label, run, obs, models=env.base_models(), contracts={})
