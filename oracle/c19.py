"""C19: pypi_rest2html accepts only links with allowed schemes"""
import contextlib
import io
import re

SHRINK = ('src',)
RULE = 'random rest documents with references and images of all schemes in all places; non-trivial: at least one URI'
ALLOWED = 'file ftp gopher hdl http https imap mailto mms news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet wais irc'.split()
URIS = ['http://a.b/c', 'https://a.b', 'ftp://x', 'javascript:alert(1)', 'data:text/html;base64,xx', '/relative', 'vbscript:x', 'JaVaScRiPt:x', 'mailto:a@b.c', 'svn+ssh://x', 'HTTP://a.b', 'foo://x', '#frag', 'x.png', 'sip:x', 'about:blank', 'http:x', ' javascript:x', 'httpx://a', 'git+ssh://a', 'a:b', 'tel:1', 'chrome://x']
TEMPL = ['`a <%s>`_', '`a`_\n\n.. _a: %s', '.. image:: %s', '.. figure:: %s\n\n   cap', '.. image:: http://ok/\n   :target: %s', '* `x <%s>`_', '+-----------------------------------------------+\n| `t <%s>`_ |\n+---+', '|s|\n\n.. |s| image:: %s', 'Title\n=====\n\n`a <%s>`__', 'term\n  `d <%s>`_', 'x [1]_\n\n.. [1] `f <%s>`_', ':field: `a <%s>`_', '.. note:: `n <%s>`_', '  quote `q <%s>`_', '%s', '.. topic:: t\n\n   `a <%s>`_', 'anon__\n\n__ %s', '.. sidebar:: x\n\n   .. image:: %s', '**b** `a <%s>`_ `b <http://ok>`_', '.. target-notes::\n\n`a <%s>`_', '.. _b: %s\n\nb_', '1. `a <%s>`_\n\n   * `b <http://x>`_']


def gen(r):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        parts.append(r.choice(TEMPL).replace('%s', r.choice(URIS)))
    if r.random() < .2:
        parts.append(r.choice(['.. raw:: html\n\n   <b>x</b>', '.. include:: /etc/hostname', 'text', '* a']))
    return dict(src='\n\n'.join(parts))


def fixed():
    for t in TEMPL:
        for u in URIS:
            yield dict(src=t.replace('%s', u))
            yield dict(src='`z <http://ok>`_\n\n' + t.replace('%s', u) + '\n\n`y <https://ok2>`_')
    yield dict(src='test')
    yield dict(src='.. raw:: html\n\n   <zq1>x</zq1>')
    yield dict(src='.. include:: /etc/hostname')
    yield dict(src='\n\n'.join(f'`n{i} <http://a/{i}>`_' for i in range(200)) + '\n\n`x <javascript:a>`_')


def nontrivial(case):
    return ':' in case['src']


def check(case):
    from creole.rest_tools import pypi_rest2html as mod
    import docutils.nodes
    docs, settings = [], []
    orig = mod.publish_doctree

    def spy(*a, **kw):
        settings.append(dict(kw.get('settings_overrides') or {}))
        d = orig(*a, **kw)
        docs.append(d)
        return d
    mod.publish_doctree = spy
    out = err = None
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            try:
                out = mod.pypi_rest2html(case['src'])
            except (Exception, SystemExit) as e:
                err = e
    finally:
        mod.publish_doctree = orig
    for s in settings:
        if s.get('raw_enabled') not in (0, False) or s.get('file_insertion_enabled') not in (0, False):
            return f'docutils runs with the settings {s!r}'
    if out is None:
        return None
    if '<zq1>' in out:
        return f'raw html in the result: {out!r}'
    for d in docs:
        for node in d.findall(docutils.nodes.Element):
            for key in ('refuri', 'uri'):
                if key in node.attributes:
                    uri = node[key]
                    m = re.match(r'\s*([A-Za-z][A-Za-z0-9+.-]*):', uri)
                    if not m or m.group(1).lower() not in ALLOWED:
                        return f'accepted with {key}={uri!r}: {out!r}'
    for u in re.findall(r'(?:href|src)="([^"#][^"]*)"', out):
        m = re.match(r'([A-Za-z][A-Za-z0-9+.-]*):', u)
        if not m or m.group(1).lower() not in ALLOWED:
            return f'the result contains the link {u!r}: {out!r}'
    del err
    return None
