"""C16: the command line tools write the converted file or leave it alone

Everything happens in a scratch directory that is created and removed here.
"""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from oracle import gen_creole, gen_html

SHRINK = ('src',)
RULE = 'random contents, encodings, existing/new/same/unwritable destinations and a failure at each step (open, decode, convert, encode); non-trivial: a failure or a non-ascii content'
TOOLS = {'cli_creole2html': 'creole2html', 'cli_html2creole': 'html2creole', 'cli_html2rest': 'html2rest', 'cli_html2textile': 'html2textile'}
ENC = ['utf-8', 'latin-1', 'ascii', 'utf-16', 'cp1252', 'utf-8-sig', 'utf-7', 'utf-32', 'cp037', None]


def gen(r):
    tool = r.choice(list(TOOLS))
    src = gen_creole.source(r) if tool == 'cli_creole2html' else gen_html.source(r)
    if r.random() < .3:
        src = r.choice(['äöü', '漢字', 'plain', '', 'a\r\nb\n', '\ufeffx', 'a\n' * 3000, '&#8364;', '<p>&euro;</p>', '<td><a href="/a">x</a><a href="/b">x</a></td>', '<a href="/a">x</a> <a href="/b">x</a>'])
    return dict(tool=tool, src=src, enc=r.choice(ENC), dest=r.choice(['new', 'existing', 'existing', 'same', 'dir', 'nodir']), fault=r.choice([None, None, None, 'missing', 'undecodable', 'convert', 'badcodec', 'write']), file_enc=None)


def fixed():
    for tool in ('cli_html2creole', 'cli_html2rest', 'cli_html2textile'):
        yield dict(tool=tool, src='<p>' + 'word ' * 30 + 'ü</p>\n' * 3 + '<p>word word ü</p>\n' * 150000, enc='utf-8', dest='same', fault=None, file_enc=None)
    for tool in TOOLS:
        for dest in ('new', 'existing', 'same'):
            for fault in (None, 'missing', 'undecodable', 'convert', 'badcodec'):
                for enc, src in (('utf-8', 'äö 漢'), ('latin-1', '<p>&#8364; &euro;</p>'), (None, 'x\r\ny\n'), ('utf-16', 'ab'), ('latin-1', 'ü')):
                    yield dict(tool=tool, src=src, enc=enc, dest=dest, fault=fault, file_enc=None)


def nontrivial(case):
    return bool(case['fault']) or not case['src'].isascii()


def check(case):
    import creole
    from creole import cmdline
    tmp = tempfile.mkdtemp(prefix='c16-')
    old_argv = sys.argv
    try:
        enc = case['enc'] or 'utf-8'
        try:
            raw = case['src'].encode(enc)
        except (UnicodeError, LookupError):
            return None
        src = os.path.join(tmp, 'in.txt')
        if case['fault'] == 'undecodable':
            raw = b'\xff\xfe\xfd\x81\x00\xd8' + raw
        if case['fault'] != 'missing':
            with open(src, 'wb') as f:
                f.write(raw)
        dest = {'same': src, 'dir': tmp, 'nodir': os.path.join(tmp, 'no', 'x')}.get(case['dest'], os.path.join(tmp, 'out.txt'))
        old = None
        if case['dest'] == 'existing':
            old = b'OLD\x00content ' * 20
            with open(dest, 'wb') as f:
                f.write(old)
        elif case['dest'] == 'same' and case['fault'] != 'missing':
            old = raw
        fname = TOOLS[case['tool']]
        # what must be written
        want = None
        try:
            if case['fault'] not in ('missing', 'convert', 'badcodec'):
                import codecs
                text = codecs.decode(raw, enc)
                # codecs.open reads without newline translation
                want = getattr(creole, fname)(text).encode(enc)
        except Exception:
            want = None
        argv = ['prog', src, dest]
        if case['fault'] == 'badcodec':
            argv += ['--encoding', 'no-such-codec']
        elif case['enc']:
            argv += ['--encoding', case['enc']]
        sys.argv = argv
        orig = getattr(cmdline, fname)
        if case['fault'] == 'convert':
            def failing(s):
                raise RuntimeError('conversion failed')
            failing.__name__ = fname
            setattr(cmdline, fname, failing)
        err = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                getattr(cmdline, case['tool'])()
        except (Exception, SystemExit) as e:
            err = e
        finally:
            setattr(cmdline, fname, orig)
        got = None
        if os.path.isfile(dest):
            with open(dest, 'rb') as f:
                got = f.read()
        if case['dest'] in ('dir', 'nodir'):
            return None if err is not None else 'no error for a destination that cannot be opened'
        if want is None:
            if err is None:
                return f'no error although the conversion failed ({case["fault"]})'
            if got != old:
                return f'the conversion failed ({err!r}) and the destination is {got!r} instead of {old!r}'
            return None
        if err is not None:
            return f'raised {err!r}'
        if got != want:
            return f'wrote {got!r} instead of {want!r}'
        if case['dest'] != 'same':
            with open(src, 'rb') as f:
                if f.read() != raw:
                    return 'the source file was changed'
        return None
    finally:
        sys.argv = old_argv
        shutil.rmtree(tmp, ignore_errors=True)
