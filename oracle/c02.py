"""C02: creole2html never fails and contains every macro failure"""
import re

from oracle import gen_creole, mac

SHRINK = ('src',)
RULE = 'random creole sources with macros that raise or return anything, random options; the result with failing macros must equal the result with macros that return "" except for the notices; non-trivial: the source is not empty'


def gen(r):
    case = mac.options(r)
    case['src'] = gen_creole.source(r)
    if r.random() < .3:
        case['src'] += r.choice(['\n\n', ' ', '']) + gen_creole.macro(r)
    return case


def nontrivial(case):
    return bool(case['src'].strip())


def fixed():
    base = dict(form='dict', blog=True, strict=False)
    srcs = ['', ' ', '\n', '<<bad>>', '<<none>>', '<<bad>>x<</bad>>', '= h\n<<bad>>\nx\n<</bad>>\n= i', 'a <<none>>t<</none>> b', '<<none>>\nt\n<</none>>\nz',
            '<<toc depth=x>>\n= a', '<<toc x=1>>\n= a', '<<toc>>', '<<toc depth=None>>\n= a\n== b', '<<m a>>', '<<m "a>>', '<<unknown>>\n\nz', '<<M2 x=1>>', '<<wrap>>', '<<wrap a=1>>', '<<wloop>>', '<<nofile>>', '<<num b=1>>', '<<m text=1>>', '<<m self=1>>',
            '=' * 12 + ' deep', '*', '#', '|', '{{{', '<<', '[[', '{{', '~', '\\\\', '= ', '----', '{{{\n}}}', '||', '|=|', '* \n** ', '\x00', '\ud800', '<<__class__>>', '<<__init__>>', '<<keys>>', '{{a|b|1x', '{{a|b|' + '9' * 5000 + 'x1}}']
    for s in srcs:
        for v in (None, 0, 1, 2):
            for form in ('none', 'dict', 'obj'):
                n = len(mac.EXC) if 'bad' in s or 'none' in s else 1
                for k in range(n):
                    yield dict(base, src=s, verbose=v, form=form, e=k, ret=k)
                    yield dict(base, src=s, verbose=v, form=form, e=k, ret=k, blog=False)
    for s in gen_creole.long():
        yield dict(base, src=s + '\n\n<<bad>>\n\n<<none>>', form='dict', verbose=2, e=0, ret=0)


NOTICE = re.compile(r"\[Error: Macro '(?:bad|none)' .*?\]\n(?=\x02)", re.S)


def check(case):
    try:
        html = mac.convert(case)
    except Exception as e:
        return f'creole2html raised {type(e).__name__}: {e}'
    if not isinstance(html, str):
        return f'the result is no str: {type(html)}'
    return notices(case)


def squeeze(s):
    return ''.join(s.split())


def notices(case):
    """failing macros: notice (nothing with verbose=0), the rest of the document as with macros that return ''"""
    if '<<' not in case['src'] or case['form'] == 'none':
        return None
    from creole import creole2html
    e = mac.EXC[case['e'] % len(mac.EXC)]
    ret = mac.RET[case['ret'] % len(mac.RET)]
    calls = []
    mark = '' if case['verbose'] == 0 else '\x01'

    def conv(fail):
        def bad(text=None, **kw):
            calls.append('bad')
            if fail:
                raise e
            return mark

        def none(text=None, **kw):
            calls.append('none')
            return ret if fail else mark
        return creole2html(case['src'], blog_line_breaks=case['blog'], macros=dict(bad=bad, none=none), verbose=case['verbose'], stderr=mac.Sink(), strict=case['strict'])
    good = conv(False)
    n_good = len(calls)
    del calls[:]
    failed = conv(True)
    if len(calls) != n_good:
        return f'{n_good} macro calls when the macros work, {len(calls)} when they fail'
    if not n_good or '\x01' in case['src']:
        return None
    if case['verbose'] == 0:
        if squeeze(failed) != squeeze(good):
            return f'with failing macros {failed!r}, with macros that return nothing {good!r}'
        return None
    # whitespace around the notices may differ
    parts = [re.escape(p) for p in squeeze(good).split('\x01')]
    if not re.fullmatch(r'\[Error:(?:(?!\[Error:).)*?\]'.join(parts), squeeze(failed), re.S):
        return f'with failing macros {failed!r} is not {good!r} with notices in place of \\x01'
    return None
