"""C18: rest2html is safe by default and writes clean start tags"""
import html
import os
import re
import tempfile

SHRINK = ('src',)
RULE = 'random rest documents with raw and file insertion directives, overriding keyword arguments, and random calls of starttag(); non-trivial: the document contains a directive or starttag has attributes'
DIRECTIVES = ['.. raw:: html\n\n   <zq1>RAWMARK</zq1>\n', '.. raw:: html\n   :file: %(f)s\n', '.. include:: %(f)s\n', '.. csv-table:: t\n   :file: %(f)s\n', '.. role:: raw-html(raw)\n   :format: html\n\nx :raw-html:`<zq1>RAWMARK</zq1>`\n', '.. include:: %(f)s\n   :literal:\n', '.. raw:: html\n   :url: file://%(f)s\n', '.. literalinclude:: %(f)s\n']
BLOCKS = ['text *a* **b** ``c``', '* a\n* b\n\n  * c', '3. x\n4. y', 'Title\n=====\n\ntext', '+---+---+\n| a | b |\n+===+===+\n| 1 | 2 |\n+---+---+', '`l <http://x.y/?a=1&b="2">`_', '.. image:: /x.png\n   :alt: a "b" <c>\n   :align: right', '::\n\n   code <x> & "y"', ':field: value', 'term\n  def', '.. class:: foo\n\npara', '.. note:: n', '  quote', '.. figure:: /f.png\n   :align: left\n\n   cap', '.. container:: c\n\n   x', '.. topic:: t\n\n   body', 'a [1]_\n\n.. [1] foot', '.. table:: cap\n   :class: x\n\n   = =\n   a b\n   = =', '|s|\n\n.. |s| image:: /y.png', '.. _a: http://b.c\n\na_', '-a  option', '.. math:: x', '.. sidebar:: s\n\n   t', '.. code:: python\n\n   x = 1', '<b> & "q"', '.. epigraph::\n\n   e', 'x\n\n----\n\ny', '.. contents::', '.. meta::\n   :a: b', '.. parsed-literal::\n\n   *x*']
NAMES = ['class', 'classes', 'start', 'frame', 'rules', 'href', 'src', 'alt', 'ids', 'id', 'CLASS', 'Start', 'title', 'border', 'Rules', 'FRAME', 'width', 'Classes', 'name', 'colspan']
VALUES = ['x', 'a"b', '<c>', 'a&b', '', "it's", 1, 0, ['a', 'b'], ['"', '<'], 'a\nb', '\t', 'a@b.c', '&quot;', True, [], 'ü', '>']
KW = [{}, {}, {}, {'traceback': False}, {'halt_level': 5}, {'report_level': 5}, {'enable_exit_status': None}, {'doctitle_xform': True}]


def gen(r):
    if r.random() < .3:
        return dict(kind='tag', tag=r.choice(['a', 'div', 'p', 'img', 'table', 'DIV', 'ol', 'span', 'div2', 'td']), suffix=r.choice(['\n', '', 'x']), empty=r.choice([0, 1, True, False]), attrs=[[n, r.choice(VALUES)] for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5]))], src='')
    parts = [r.choice(BLOCKS) for _ in range(r.randint(1, 4))]
    for _ in range(r.choice([0, 1, 1, 2])):
        parts.insert(r.randint(0, len(parts)), r.choice(DIRECTIVES))
    return dict(kind='doc', src='\n\n'.join(parts), kw=r.randint(0, len(KW) - 1))


def fixed():
    for d in DIRECTIVES:
        for k in range(len(KW)):
            yield dict(kind='doc', src=d, kw=k)
    for b in BLOCKS:
        yield dict(kind='doc', src=b, kw=0)
    for n in NAMES:
        for v in VALUES:
            for tag in ('a', 'div'):
                yield dict(kind='tag', tag=tag, suffix='\n', empty=0, attrs=[[n, v]], src='')
    yield dict(kind='tag', tag='ol', suffix='', empty=1, attrs=[[n, 'v'] for n in NAMES], src='')


def nontrivial(case):
    return '::' in case['src'] or bool(case.get('attrs'))


_tr = []


def translator():
    if not _tr:
        from docutils.core import publish_doctree
        from docutils.frontend import OptionParser
        from creole.rest_tools.clean_writer import CleanHTMLTranslator, CleanHTMLWriter
        doc = publish_doctree('x', settings_overrides={'report_level': 5})
        settings = OptionParser(components=(CleanHTMLWriter(),)).get_default_values()
        doc.settings = settings
        _tr.append(CleanHTMLTranslator(doc))
    return _tr[0]


def check(case):
    if case['kind'] == 'tag':
        return check_tag(case)
    return check_doc(case)


IGNORED = {'start', 'class', 'classes', 'frame', 'rules'}


def check_tag(case):
    import docutils.nodes
    t = translator()
    node = docutils.nodes.paragraph()
    attrs = {n: v for n, v in case['attrs']}
    try:
        out = t.starttag(node, case['tag'], case['suffix'], case['empty'], **attrs)
    except Exception as e:
        return f'starttag raised {type(e).__name__}: {e}'
    if case['tag'] == 'div':
        return None if out == '' else f'a div start tag is written: {out!r}'
    m = re.fullmatch(r'<([A-Za-z0-9]+)((?: [a-z]+="[^"<>]*")*)( /)?>' + re.escape(case['suffix']), out, re.S)
    if not m or m.group(1) != case['tag'] or bool(m.group(3)) != bool(case['empty']):
        return f'not a clean start tag: {out!r}'
    names = set()
    for n, v in re.findall(r' ([a-z]+)="([^"]*)"', m.group(2)):
        if n in IGNORED:
            return f'attribute {n} is written: {out!r}'
        if re.search(r'&(?!(amp|lt|gt|quot|#64|#\d+);)', v):
            return f'attribute value not escaped: {out!r}'
        names.add(n)
        orig = [attrs[k] for k in attrs if k.lower() == n]
        texts = [' '.join(map(str, o)) if isinstance(o, list) else str(o) for o in orig]
        if html.unescape(v).split() not in [x.split() for x in texts]:
            return f'attribute {n} has the value {v!r} instead of one of {texts!r}'
    want = {n.lower() for n in attrs} - IGNORED
    if names != want:
        return f'attributes {sorted(names)} are written instead of {sorted(want)}: {out!r}'
    return None


def check_doc(case):
    import contextlib
    import io
    from creole.rest_tools import clean_writer
    fd, path = tempfile.mkstemp(prefix='c18-')
    seen = []
    orig = clean_writer.publish_parts

    def spy(*a, **kw):
        seen.append(dict(kw.get('settings_overrides') or {}))
        return orig(*a, **kw)
    try:
        os.write(fd, b'<zq2>FILEMARK</zq2>\n')
        os.close(fd)
        src = case['src'].replace('%(f)s', path)
        clean_writer.publish_parts = spy
        kw = dict(KW[case['kw']])
        out = ''
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            try:
                out = clean_writer.rest2html(src, **kw)
            except (Exception, SystemExit):
                pass
        clean_writer.publish_parts = orig
        for s in seen:
            if s.get('raw_enabled') not in (0, False) or s.get('file_insertion_enabled') not in (0, False):
                return f'docutils runs with the settings {s!r}'
        if '<zq1>' in out or re.search(r'(?<!&gt;)FILEMARK', out.replace('&lt;zq2&gt;FILEMARK', 'FILEMARK')):
            return f'raw html or an inserted file is in the result: {out!r}'
        return None
    finally:
        clean_writer.publish_parts = orig
        os.unlink(path)
