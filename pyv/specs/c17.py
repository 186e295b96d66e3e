"""C17: README update and README check agree.

Over a ghost file system with an arbitrary creole README and an arbitrary previous content of the generated file: the
check, the update and the check again. The second check accepts; when the first accepted, the update opens the file for
reading only."""
import datetime
import sys

import markdown
import readme_renderer.rst

from creole import setup_utils as su

from .. import automata as A
from ..values import Atom, Builtin, SList, TExc, Unsupported, key_of
from . import env_fs as fs

NO_CR = fs.NO_CR
LINE = A.chars_star(A.cs_neg(A.cs_chars('\r\n/')))


def prove(pr):
    pr.units([(agree, (w, f)) for w in ('rst', 'markdown') for f in ('README.creole', None)])
    pr.trust('creole2html, html2rest, html2markdown', 'functions of their arguments (C07) that may raise any exception; their results for a README without carriage return contain none')
    pr.trust('readme_renderer.rst.render, markdown.markdown', 'functions of their arguments')
    pr.trust('pathlib, open', 'text mode: the given encoding, universal newlines when reading, newlines unchanged when writing (POSIX); opening for writing empties the file')
    pr.trust('datetime', 'isoformat and str write digits, `-`, `:`, `.`, `+`, space and T')
    pr.assume('the name of the README file contains no newline, and the generated file is another file')
    pr.assume('the README is not changed between update and check')


class Fun:
    """a function of its arguments that may fail"""

    def __init__(self, name, none=False):
        self.name, self.none = name, none

    def __call__(self, interp, p, *args, **kwargs):
        return self.apply(interp, p, args, kwargs)

    def apply(self, interp, p, args, kwargs):
        kw = tuple(sorted((k, getattr(v, '__name__', None) or key_of(v)) for k, v in kwargs.items() if k != 'stream'))
        k = ('fun', self.name, key_of(args[0]), kw)
        if k not in p.memo:
            p.memo[k] = p.choose(3 if self.none else 2, self.name)
        if p.memo[k] == 1:
            interp.throw(RuntimeError, self.name)
        if p.memo[k] == 2:
            return None
        return p.derived(self.name, [args[0], kw], NO_CR)


class Time:
    notnone = True

    def getattr(self, interp, p, o, name, default):
        if name in ('replace', 'astimezone'):
            return Builtin(name, lambda i, pp, *a, **k: p.opaque('time', Time()))
        if name == 'isoformat':
            return Builtin(name, lambda i, pp, *a, **k: self.str(i, pp, o))
        raise Unsupported(f'datetime.{name}')

    def str(self, interp, p, o):
        return p.atom('time', A.regex(r'[0-9:.+T -]+', 0))


def vague(p):
    """a text is made in a way of which not everything is known"""
    return any(isinstance(a, Atom) and a.origin and a.origin[0] in ('join', 'acc', 're.sub', 'resub', 'part', 'replace') for a in p.reg)


def agree(pr, which, filename):
    update, accept = getattr(su, f'update_{which}_readme'), getattr(su, f'assert_{which}_readme')
    names = ['the check accepts the updated file', 'an accepted file is not rewritten', 'the update returns']

    def run(v):
        p = v.path
        w = fs.World(p)
        root = fs.path_of(p, p.atom('package_root'))
        fn = filename or p.atom('filename', LINE - A.EPS)
        creole = fs.join(v.interp, p, root, fn)
        gen = v.interp.call(v.interp.getattr(creole, 'with_suffix'), ('.rst' if which == 'rst' else '.md',), {})
        w.put(creole.spec.key, 'README.creole')
        w.put(gen.spec.key, 'generated')

        def accepted():
            try:
                v.call(accept, root, filename=fn)
                return True, ''
            except TExc as e:
                return e.cls is AssertionError, f'{e.cls.__name__} {e.value.fields.get("args") if hasattr(e.value, "fields") else e.value!r} ({v.where()})'
        try:
            v.call(accept, root, filename=fn)
            before = True
        except TExc as e:
            before = False
        n = len(w.log)
        try:
            v.call(update, root, filename=fn)
        except TExc as e:
            return          # nothing is claimed
        written = [x for x in w.log[n:] if x[0] == 'write' and x[1] == 'generated']
        if before:
            v.decide('an accepted file is not rewritten', not written or (None if vague(p) else False), f'{written!r}')
        fails = len(w.failures())
        try:
            v.call(accept, root, filename=fn)
            v.require('the check accepts the updated file', True)
        except TExc as e:
            if len(w.failures()) > fails:
                return      # the file system fails
            v.decide('the check accepts the updated file', None if vague(p) else False, f'{e.cls.__name__} ({v.where()})')
    pr.verify(f'setup_utils.update_{which}_readme[{filename or "any file name"}]', run, names[:2],
              models={**fs.models(), datetime.datetime.fromtimestamp: lambda i, p, *a, **k: p.opaque('time', Time()),
                      readme_renderer.rst.render: Fun('render', True), markdown.markdown: Fun('markdown'), sys.exit: sys_exit},
              contracts={su.creole2html: Fun('creole2html'), su.html2rest: Fun('html2rest'), su.html2markdown: Fun('html2markdown'),
                         su.unified_diff: Fun('unified_diff')}, budget=150)


def sys_exit(interp, p, *a):
    interp.throw(SystemExit, *a)
