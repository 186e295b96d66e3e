"""C19: pypi_rest2html accepts only links with allowed schemes.

The document is an arbitrary sequence of nodes with arbitrary URIs. Each iteration over it that comes to its end has
checked the URI of its node; the document is rendered only when all nodes of it have been seen."""
from docutils import io as dio
from docutils.core import Publisher, publish_doctree, publish_parts

from creole.rest_tools import pypi_rest2html as pr2h

from urllib.parse import urlparse, urlsplit

from .. import automata as A
from .. import models
from ..values import Builtin, Obj, Opaque, SDict, Seg, TExc, Unsupported, is_str, key_of
from .c18 import PARAMS

NAMES = ('raw_enabled', 'file_insertion_enabled')
ALLOWED = '''file ftp gopher hdl http https imap mailto mms news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh
telnet wais irc'''.split()
SCHEME = A.regex(r'(?:[a-z][a-z0-9+.-]*)?', 0)
URIS = ('refuri', 'uri')


def prove(pr):
    pr.units([(publish, ())])
    pr.trust('docutils', 'traverse / findall give every node of the document once; the HTML is made from this document; the settings disable what they name')
    pr.trust('urllib.parse.urlparse', 'scheme of a URI')
    pr.assume('a node has either a refuri or a uri (docutils: reference and target, image), and text nodes have none')


class Document:
    notnone = True

    def getattr(self, interp, p, o, name, default):
        if name in ('traverse', 'findall'):
            def nodes(i, pp, *a, **kw):
                if a or kw:
                    raise Unsupported('a part of the nodes')
                p.extra['traversed'] = p.extra.get('traversed', 0) + 1
                return p.slist([Seg('src', elem=lambda i, pp: node_of(pp), name='nodes', src=('nodes', o))])
            return Builtin(name, nodes)
        raise Unsupported(f'document.{name}')


def node_of(p):
    n = p.opaque('node', Node(p.choose(4, 'kind of node')))
    p.extra['current'] = n
    return n


class Node:
    """kinds: 0 a text, 1 with a refuri, 2 with a uri, 3 without a link"""
    notnone = True

    def __init__(self, kind):
        self.kind = kind

    def attr(self):
        return {1: 'refuri', 2: 'uri'}.get(self.kind)

    def truth(self, interp, p, o):
        return True

    def value(self, p, o):
        return p.derived('uri', [o], A.ALL)

    def getattr(self, interp, p, o, name, default):
        from ..interp import MISSING
        if name == 'tagname':
            return '#text' if self.kind == 0 else p.derived('tagname', [o], A.regex('[a-z_]+', 0))
        if self.kind != 0:
            if name in ('hasattr', 'has_key'):
                return Builtin(name, lambda i, pp, k: self.has(pp, o, k))
            if name == 'get':
                return Builtin(name, lambda i, pp, k, d=None: self.value(pp, o) if self.has(pp, o, k) else d)
            if name == 'attributes':
                return o
            raise Unsupported(f'node.{name}')
        if default is not MISSING:
            return default
        if name in ('hasattr', 'get', 'attributes'):
            interp.throw(AttributeError, name)
        raise Unsupported(f'text.{name}')

    def has(self, p, o, k):
        if not isinstance(k, str):
            raise Unsupported('attribute name')
        if k in URIS:
            return k == self.attr()
        return p.choose(2, k) == 0

    def contains(self, interp, p, o, k):
        if self.kind == 0:
            raise Unsupported('in text')
        return self.has(p, o, k)

    def getitem(self, interp, p, o, k):
        if self.kind == 0:
            raise Unsupported('index of text')
        if self.has(p, o, k):
            return self.value(p, o)
        interp.throw(KeyError, k)


class Parsed:
    notnone = True

    def __init__(self, uri):
        self.uri = uri

    def getattr(self, interp, p, o, name, default):
        if name == 'scheme':
            return scheme(p, self.uri)
        raise Unsupported(f'urlparse().{name}')

    def getitem(self, interp, p, o, k):
        if k == 0:
            return scheme(p, self.uri)
        raise Unsupported('urlparse()[]')


def scheme(p, uri):
    return p.derived('scheme', [uri], SCHEME)


class Pub:
    notnone = True

    def __init__(self, source):
        self.source = source

    def getattr(self, interp, p, o, name, default):
        v = p.run
        if name == 'writer':
            return p.opaque('writer', Writer())
        if name == 'process_programmatic_settings':
            def settings(i, pp, spec=None, overrides=None, config=None):
                safe(v, i, overrides)
                p.extra['pub settings'] = True
            return Builtin(name, settings)
        if name == 'publish':
            def pub(i, pp, *a, **kw):
                if a or kw:
                    raise Unsupported('publish with arguments')
                rendered(v, self.source)
            return Builtin(name, pub)
        if name in ('set_writer', 'set_destination', 'set_reader', 'set_components'):
            return Builtin(name, lambda i, pp, *a, **k: None)
        raise Unsupported(f'Publisher.{name}')


class Html:
    notnone = True

    def getattr(self, interp, p, o, name, default):
        return Builtin(name, lambda i, pp, *a, **k: p.opaque('html', Html()))


class Writer:
    notnone = True

    def getattr(self, interp, p, o, name, default):
        if name == 'parts':
            return p.opaque('parts', Writer())
        raise Unsupported(f'writer.{name}')

    def getitem(self, interp, p, o, k):
        return p.opaque(f'part {k}', Html())


def safe(v, interp, s):
    if not isinstance(s, SDict):
        v.require('raw HTML and file insertion are disabled', s is not None, f'settings_overrides={s!r}')
        raise Unsupported('settings')
    for n in NAMES:
        ok = models.dict_has(interp, s, n) and not interp.truth(models.dict_get(interp, s, n))
        v.require('raw HTML and file insertion are disabled', ok, f'{n} is {s.d.get(n)!r}')


COMPLETE = []       # iterations over all nodes that come to their end


def rendered(v, source):
    p = v.path
    if not (isinstance(source, Opaque) and isinstance(source.spec, Document)):
        raise Unsupported(f'rendering of {source!r}')
    v.require('every node is checked before the document is rendered', p.extra.get('traversed', 0) > 0 and p.extra.get('current') is None, 'nodes are left out')
    v.require('every node is checked before the document is rendered', lambda: (bool(COMPLETE), 'no loop over the nodes', False))
    p.extra['rendered'] = True


def publish(pr):
    names = ['raw HTML and file insertion are disabled', 'an accepted node has an allowed scheme', 'every node is checked before the document is rendered']

    def doctree(interp, p, *args, **kwargs):
        kwargs = {**dict(zip(('source', 'source_path', 'source_class', 'reader', 'reader_name', 'parser', 'parser_name', 'settings', 'settings_spec', 'settings_overrides'), args)), **kwargs}
        if kwargs.get('settings') is not None:
            raise Unsupported('other settings')
        safe(p.run, interp, kwargs.get('settings_overrides'))
        p.run.require('every node is checked before the document is rendered', kwargs.get('source') is p.extra['source'], 'another source')
        if p.choose(2, 'publish_doctree') == 1:
            interp.throw(RuntimeError, 'docutils')
        return p.opaque('document', Document())

    def iteration(interp):
        p = interp.path
        n = p.extra.get('current')
        if n is None:
            raise Unsupported('another loop')
        e = p.extra.get('loop_elem')
        if e is None or e[1] is not n or not isinstance(e[0].src, tuple) or e[0].src[0] != 'nodes':
            raise Unsupported('a loop over other nodes')
        p.extra['current'] = None
        COMPLETE.append(1)
        v = p.run
        if n.spec.attr() is None:
            return
        s = scheme(p, n.spec.value(p, n))
        L = A.words(tuple(ALLOWED))
        have = s if isinstance(s, str) else None
        lang = A.lit(s) if have is not None else s.parts[0].lang
        v.require('an accepted node has an allowed scheme', lang <= L, f'a {n.spec.attr()} with the scheme {[w for w in (lang - L).words(3)]!r}')

    def parse(interp, p, uri, *a, **k):
        if a or k:
            raise Unsupported('urlparse with a scheme')
        if not is_str(uri):
            raise Unsupported(f'urlparse({uri!r})')
        if p.choose(2, 'urlparse') == 1:
            interp.throw(ValueError, 'invalid URL')
        return p.opaque('parsed', Parsed(uri))

    def run(v):
        p = v.path
        p.extra['source'] = p.atom('source')
        enc = 'unicode' if p.choose(2, 'output_encoding') == 0 else p.atom('output_encoding')
        try:
            r = v.call(pr2h.pypi_rest2html, p.extra['source'], enc)
        except TExc as e:
            return
        v.require('every node is checked before the document is rendered', bool(p.extra.get('rendered')), 'no document is rendered')
    pr.verify('pypi_rest2html', run, names, hooks={'iteration': iteration},
              models={publish_doctree: doctree, urlparse: parse, urlsplit: parse, Publisher: lambda i, p, reader=None, parser=None, writer=None, source=None, **k: p.opaque('publisher', Pub(source)),
                      dio.DocTreeInput: lambda i, p, source=None, *a, **k: source, pr2h.readers.doctree.Reader: lambda i, p, *a, **k: p.opaque('reader')}, budget=150)
