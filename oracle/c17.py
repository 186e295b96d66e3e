"""C17: README update and README check agree (in a scratch directory)"""
import contextlib
import io
import os
import shutil
import tempfile
from pathlib import Path

from oracle import gen_creole

SHRINK = ('creole', 'old')
RULE = 'random README.creole contents and previous contents of the generated file (empty, foreign, up to date with changed trailer, shortened, extended); non-trivial: a previous content that is not empty'
KINDS = ['empty', 'foreign', 'current', 'body', 'body+nl', 'trailer2', 'stale', 'cut', 'extended', 'nonl', 'four', 'otherdate', 'crlf', 'plusline']


def gen(r):
    src = r.choice(['= Title\n\nfoo bar\n', 'text', '= ä\n\n* a\n** b\n\n|= x |= y |\n| 1 | 2 |\n', '', '\n\n', '== b\n\n[[http://x.y|z]]\n', 'a\n\nb\n\nc\n\nd\n\ne', '{{{\ncode\n\n\nx\n}}}', '----\n\nx\n\n----', 'a\n\n----\n\nb'])
    if r.random() < .4:
        src += '\n\n' + '\n\n'.join(r.choice(['para ' + gen_creole.words(r).replace('<', '').replace('|', ''), '* ' + 'item', '= ' + r.choice('abcdef'), '----', 'x\n\n\n\ny', '**b**']) for _ in range(r.randint(1, 4)))
    return dict(creole=src, kind=r.choice(KINDS), which=r.choice(['rst', 'md']), old=r.choice(['', 'x', 'a\nb\nc\nd\ne\nf', '\n\n\n\n', 'old\n\n------------\n\nnote', 'ü']), name=r.choice(['README.creole', 'DOC.creole']))


def fixed():
    for which in ('rst', 'md'):
        for kind in KINDS:
            for src in ('= Title\n\nfoo bar\n', 'a\n\nb\n\nc\n\nd\n\ne', 'x'):
                yield dict(creole=src, kind=kind, which=which, old='a\nb\nc\nd\ne\nf', name='README.creole')


def nontrivial(case):
    return case['kind'] != 'empty'


def check(case):
    from creole import setup_utils as su
    update, accept = (su.update_rst_readme, su.assert_rst_readme) if case['which'] == 'rst' else (su.update_markdown_readme, su.assert_markdown_readme)
    tmp = tempfile.mkdtemp(prefix='c17-')
    try:
        root = Path(tmp)
        (root / case['name']).write_text(case['creole'], encoding='utf-8')
        out = (root / case['name']).with_suffix('.' + case['which'])
        quiet = io.StringIO()
        with contextlib.redirect_stdout(quiet), contextlib.redirect_stderr(quiet):
            # the content an update creates from nothing
            out.write_text('', encoding='utf-8')
            try:
                update(root, filename=case['name'])
            except SystemExit:
                return None   # the readme does not render
            except Exception as e:
                from creole.emitter.html2rest_emitter import Html2restException
                if isinstance(e, (NotImplementedError, Html2restException)):
                    return None
                return f'update raised {type(e).__name__}: {e}'
            full = out.read_text(encoding='utf-8')
            body = full.rsplit('\n', 4)[0]
            old = {'empty': '', 'foreign': case['old'], 'current': full, 'body': body, 'body+nl': body + '\n', 'trailer2': full + '\n', 'stale': 'X' + full, 'cut': full[:-1], 'extended': full + '\nmore', 'nonl': full.replace('\n', ' '), 'four': body + '\n\n\n\n',
                   'otherdate': full.replace('20', '19'), 'crlf': full.replace('\n', '\r\n'), 'plusline': body + '\nnew line' + full[len(body):]}[case['kind']]
            with open(out, 'w', encoding='utf-8', newline='') as f:
                f.write(old)
            os.utime(out, ns=(10 ** 18, 10 ** 18))
            before = out.read_bytes()
            try:
                accept(root, filename=case['name'])
                accepted = True
            except AssertionError:
                accepted = False
            try:
                update(root, filename=case['name'])
            except Exception as e:
                return f'update raised {type(e).__name__}: {e}'
            after = out.read_bytes()
            try:
                accept(root, filename=case['name'])
            except AssertionError as e:
                return f'the check refuses the updated file: {str(e)[:300]} (previous content {old!r})'
            rewritten = out.stat().st_mtime_ns != 10 ** 18 or after != before
            if accepted and rewritten:
                return f'the file was accepted and is rewritten (previous content {old!r})'
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
