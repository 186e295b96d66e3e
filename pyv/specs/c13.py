"""C13: whitespace cleanup changes nothing but whitespace.

strip_html and clean_whitespace are chains of steps; each step keeps squeeze(text), the text without whitespace, and a
run of whitespace between two pieces of text keeps at least one character unless a tag (a match of the pattern) is
next to it."""
from creole.html_tools import strip_html as sh
from creole.html_tools import text_tools as tt

from .. import automata as A
from .. import models
from ..explore import lang_of
from ..values import S, Atom, PathEnd, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, parts_of, rope
from . import project


def prove(pr):
    pr.units([(clean, ()), (strip, ())])
    pr.trust('re', 'sub() replaces non-overlapping matches and copies all other text')
    pr.trust('str.split, str.join, str.strip', 'as documented')


def clean(pr):
    name = 'clean_whitespace'

    def run(v):
        p = v.path
        txt = p.atom('txt')
        p.extra['txt'] = txt
        try:
            r = v.call(tt.clean_whitespace, txt)
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls} ({v.where()})')
            return
        v.require('raises nothing', True)
        a = atom_of(r) if is_str(r) and not isinstance(r, str) else None
        v.decide('nothing but a pass over the text', a is not None and a.origin[0] == 'resub' and key_of(a.origin[2]) == key_of(txt) or None, f'{r!r}')

    def iteration(interp):
        p = interp.path
        it = p.extra.get('sub_iter')
        if it is None:
            raise Unsupported('another loop')
        pat, text, m, r = it
        D = project.whites()
        p.run.same('the match is kept except for whitespace at its ends', project.outer(r, D), project.outer(m.spec.whole, D))
    pr.verify(name, run, ['raises nothing', 'nothing but a pass over the text', 'the match is kept except for whitespace at its ends'], hooks={'iteration': iteration})


def strip(pr):
    name = 'strip_html'
    obs = ['raises nothing', 'nothing but whitespace changes', 'a tag is kept except for whitespace', 'words stay separated']

    def run(v):
        p = v.path
        txt = p.atom('html')
        p.extra['txt'] = txt
        try:
            r = v.call(sh.strip_html, txt)
        except TExc as e:
            v.require('raises nothing', False, f'{e.cls} ({v.where()})')
            return
        v.require('raises nothing', True)
        ok, why = project.equal(p, r, txt)
        v.decide('nothing but whitespace changes', ok, why)
        if ok:
            v.decide('words stay separated', *project.separated(p, r, txt))

    def piecewise(p, new, piece):
        v = p.run
        if new is None:
            v.decide('nothing but whitespace changes', lang_of(piece) <= project.star(project.whites()) or None, f'{piece!r} is not used')
            return
        ok, why = project.equal(p, rope(*[x for n in new for x in (' ', n)]), piece)
        v.decide('nothing but whitespace changes', ok, why)
        if ok:
            v.decide('words stay separated', *(project.separated(p, new[0], piece) if len(new) == 1 else (True if not new else None, f'{new!r}')))

    def iteration(interp):
        p = interp.path
        it = p.extra.pop('sub_iter', None)
        if it is None:
            project.iteration(interp, lambda new, piece: piecewise(p, new, piece))
            return
        pat, text, m, r = it
        p.run.decide('a tag is kept except for whitespace', *project.equal(p, r, m.spec.whole))
        # the match takes whitespace at its borders only, so no text is joined without a tag in between
        p.run.decide('words stay separated', *project.tag_shape(p, m.spec.whole))
    pr.verify(name, run, obs, hooks={'iteration': iteration})
