"""C16: the command line tools write the converted file or leave it alone.

Each entry function of cmdline is run over a ghost file system: arbitrary source content, arbitrary encoding, source and
destination the same file or not, a failure at each step. On a normal return the destination is the encoding of the
conversion of the decoded source; when a step before the writing failed, the destination has its old content."""
import argparse

from creole import cmdline

from .. import automata as A
from ..values import Builtin, Obj, Opaque, TExc, Unsupported, key_of
from . import env_fs as fs

TOOLS = ('creole2html', 'html2creole', 'html2rest', 'html2textile')
BEFORE = ('open', 'codec', 'decode', 'convert', 'encode')


def prove(pr):
    pr.units([(tool, (t,)) for t in TOOLS])
    pr.trust('argparse', 'parse_args returns the first positional argument of the command line under the first name added, and so on')
    pr.trust('codecs, open', 'strict decoding of an encoded text with the same codec gives the text; opening for writing empties the file; codecs.open does not translate newlines')
    pr.trust('creole2html, html2creole, html2rest, html2textile', 'any function of the text that may raise any exception (their own properties: C01 to C15)')
    pr.assume('a failure while the destination itself is opened or written is outside the property')


class Convert:
    def __init__(self, name):
        self.name = name

    def apply(self, interp, p, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported('conversion with options')
        k = ('converted', self.name, key_of(args[0]))
        if k not in p.memo:
            p.memo[k] = p.choose(2, 'conversion fails') == 0
        if not p.memo[k]:
            fs.world(p).fail('convert')
            interp.throw(RuntimeError, 'conversion')
        return p.derived('converted by ' + self.name, [args[0]], A.ALL)


class Parser:
    notnone = True

    def __init__(self):
        self.args = []

    def getattr(self, interp, p, o, name, default):
        if name == 'add_argument':
            def add(i, pp, *names, **kw):
                if set(kw) - {'help', 'default', 'action', 'version', 'metavar', 'dest'} or not all(isinstance(n, str) for n in names):
                    raise Unsupported(f'add_argument{names!r} {sorted(kw)}')
                if kw.get('action', 'store') not in ('store', 'version'):
                    raise Unsupported('argparse action')
                self.args.append((names, kw))
            return Builtin(name, add)
        if name == 'parse_args':
            return Builtin(name, lambda i, pp, *a: p.opaque('args', Args(self.args)))
        raise Unsupported(f'ArgumentParser.{name}')


class Args:
    notnone = True

    def __init__(self, args):
        self.values = {}
        self.args = args

    def getattr(self, interp, p, o, name, default):
        if not self.values:
            given = [p.extra['source'], p.extra['dest']]
            for names, kw in self.args:
                if kw.get('action') == 'version':
                    continue
                if not names[0].startswith('-'):
                    self.values[names[0]] = given.pop(0) if given else None
                    continue
                n = kw.get('dest') or max(names, key=lambda x: x.startswith('--')).lstrip('-').replace('-', '_')
                if '--encoding' in names:
                    self.values[n] = p.extra['encoding'] if p.extra['encoding'] is not None else kw.get('default')
                else:
                    self.values[n] = kw.get('default') if p.choose(2, n) == 0 else p.atom(n)
        if name not in self.values:
            interp.throw(AttributeError, name)
        return self.values[name]


def tool(pr, name):
    f = getattr(cmdline, 'cli_' + name)

    def run(v):
        p = v.path
        w = fs.World(p)
        src, dst = p.atom('sourcefile'), p.atom('destination')
        same = p.choose(2, 'same file') == 1
        w.put(src, 'source')
        if same:
            w.names[key_of(dst)] = 'source'
        elif p.choose(2, 'existing') == 1:
            w.put(dst, 'dest')
        else:
            w.names[key_of(dst)] = 'dest'
        d = 'source' if same else 'dest'
        old_src, old = w.files['source'], w.files.get(d)
        p.extra.update(source=src, dest=dst, encoding=p.atom('encoding', A.ALL - A.EPS) if p.choose(2, 'encoding given') == 1 else None)
        enc = p.extra['encoding'] if p.extra['encoding'] is not None else 'utf-8'
        err = None
        try:
            v.call(f)
        except TExc as e:
            err = e
        failed = w.failures()
        now = w.content(d)
        if err is None:
            text = p.derived('decode', [old_src, fs.norm(enc)], A.ALL)
            conv = p.derived('converted by ' + name, [text], A.ALL)
            want = fs.bytes_of(p, ('text', conv, fs.norm(enc)))
            if failed and failed[0] in BEFORE:
                v.require('an existing destination keeps its content', now is old, f'after a failure: {failed[0]}')
            elif failed:
                v.require('the destination is the conversion of the source', False, f'returns normally after a failure: {failed[0]}')
            else:
                v.require('the destination is the conversion of the source', now is want, f'{getattr(now, "spec", now) and getattr(now.spec, "term", now)!r} instead of {want.spec.term!r}' if now is not None else 'nothing is written')
        elif failed and failed[0] in BEFORE:
            v.require('an existing destination keeps its content', now is old, f'{failed[0]} fails and the destination is changed')
        elif failed:
            pass        # the destination cannot be written
        else:
            v.require('the destination is the conversion of the source', False, f'{err.cls.__name__} although nothing fails ({v.where()})')
        if not same and 'source' in w.files:
            v.require('the source file keeps its content', w.content('source') is old_src, 'changed')
        elif not same:
            v.require('the source file keeps its content', False, 'removed')
    pr.verify(f'cmdline.cli_{name}', run, ['the destination is the conversion of the source', 'an existing destination keeps its content', 'the source file keeps its content'],
              models={**fs.models(), argparse.ArgumentParser: lambda i, p, *a, **k: p.opaque('parser', Parser())},
              contracts={getattr(cmdline, t): Convert(t) for t in TOOLS}, budget=150)
