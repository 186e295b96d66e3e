"""C04: preformatted text is emitted verbatim"""
import html as htmllib
import re

from oracle import gen_creole

SHRINK = ('text',)
RULE = 'random preformatted texts in inline and block contexts; non-trivial: the text contains a markup or html special character'
CTX = ['%s', 'foo %s bar', '**b** %s end', '* item %s', '# x\n## y %s z', '| %s |', '| a | %s | b |', '|= a |= x %s |= b', '|= %s |', '|=%s|c|', '|x %s', '|= h | a |\n| c | d %s |', '//i// %s', '= t\n\npara %s', 'x\\\\%s']
BCTX = ['%s', 'foo\n%s', 'foo\n%s\nbar', '* a\n%s\n* b', '= t\n%s', '|x|\n%s', '%s\n\nbar', 'x\n\n%s\n= t', '**a\n%s', '----\n%s\ny']

WCTX = ['%s', '%s\n\nbar', '%s\n= t\nx', '%s\n** x']


def line(r):
    k = r.random()
    if k < .5:
        return gen_creole.inlines(r, 2).replace('\n', ' ')
    if k < .8:
        return ''.join(r.choice([c for c in gen_creole.NASTY if '\n' not in c and '\r' not in c]) for _ in range(r.randint(0, 8)))
    return r.choice(['', ' x', '  ', '~}}}', ' ~}}} ', '~~}}}', ' }}}', '#!python', '= h', '* x', '|a|', '----', '{{{', 'a~b', '&lt;', '<b>', '\\\\', 'x  ', '~}}} x', '\t~}}}'])


TAILS = ['', '', '', '\n\npara', '\n= h', '\n----', '\n\n* x', '\n\n|y|', '\\\\', '\n\n\n', '\n\n{{{\nA\n}}}', '\n# x\n# y']
ODD = '\x0b\x0c\x1c\x1d\x1f\x85\xa0\u2028\u3000\t\x7f\x00\ufeff\u200b'


def odd(r, t):
    while r.random() < .15:
        i = r.randint(0, len(t))
        t = t[:i] + r.choice(ODD) + t[i:]
    return t


def gen(r):
    if r.random() < .5:
        ctx = r.choice(CTX) + r.choice(TAILS)
        if '|' in ctx and 'A\n}}}' in ctx:
            ctx = 'foo %s bar'
        return dict(kind='inline', ctx=ctx, text=odd(r, line(r)), text2=odd(r, line(r)) if r.random() < .3 else None, blog=r.random() < .6, strict=r.random() < .3)
    blog = r.random() < .6
    # without blog_line_breaks a line after text continues the paragraph
    return dict(kind='block', ctx=r.choice(BCTX if blog else WCTX), text=odd(r, '\n'.join(line(r) for _ in range(r.randint(1, 5)))), blog=blog, strict=r.random() < .3)


def fixed():
    for t in ['**x**', '<b>', '&lt;', '[[a]]', '<<toc>>', '<<m>>x<</m>>', '~a', 'a|b', '"', ' x ', '\\\\', '}}', '{{x}}', "'", '//', 'http://a/b', '#', '=', 'a  b', '\t', '{', '']:
        for c in CTX:
            yield dict(kind='inline', ctx=c, text=t, blog=True, strict=False)
        for c in BCTX:
            yield dict(kind='block', ctx=c, text='A' + t + '\n' + t + '\nB', blog=True, strict=False)
        for c in WCTX:
            yield dict(kind='block', ctx=c, text='A' + t + '\n' + t, blog=False, strict=False)
    for t in ['~}}}', 'a\n~}}}', 'a\n ~}}}\nb', '~~}}}', '~}}}\n~}}}', 'x\n\n\ny', '\n\nx', '#!python\nx', '#!\n', 'x~}}}', '~}}}x', ' ~}}} y', '  \nx', 'x\n~ }}}']:
        yield dict(kind='block', ctx='%s', text=t, blog=True, strict=False)
    for n in (4, 10, 40):
        yield dict(kind='block', ctx='%s', text='~}}}\n' * n + 'x', blog=True, strict=False)
        yield dict(kind='block', ctx='%s', text='a\n ~}}} \n' * n + 'x', blog=False, strict=False)
    long = '\n'.join(f'w{i} **x** <b>' for i in range(1200))
    yield dict(kind='block', ctx='%s', text=long, blog=True, strict=False)
    yield dict(kind='inline', ctx='%s', text=long.replace('\n', ' '), blog=True, strict=False)


def nontrivial(case):
    return any(c in case['text'] for c in '<>&*/[]{}~|=#')


def lead(t):
    """drops whitespace-only lines at the start"""
    while True:
        line, nl, rest = t.partition('\n')
        if nl and not line.strip():
            t = rest
        else:
            return t


def check(case):
    from creole import creole2html
    t = case['text']
    if '\r' in t:
        return None
    if case['kind'] == 'inline':
        t2 = case.get('text2')
        for x in (t, t2 or ''):
            if '}}}' in x or x.endswith('}') or '\n' in x or '{{{' in x or '\r' in x:
                return None
        src = case['ctx'].replace('%s', '{{{' + t + '}}}' + (' {{{' + t2 + '}}}' if t2 is not None else ''))
        if t2 is not None and ('<<' in t or '//' in case['ctx']):
            return None
        expected = t
        tag = 'code'
    else:
        if re.search(r'^\}\}\}', t, re.M) or not t:
            return None
        src = case['ctx'].replace('%s', '{{{\n' + t + '\n}}}')
        expected = '\n' + t + '\n'
        expected = re.sub(r'^(\s*)~(\}\}\}\s*)$', r'\1\2', expected, flags=re.M)
        tag = 'pre'
        if re.search(r'<<\s*(\w+)\s*.*?\s*>>(.|\n)*?<</\s*\1\s*>>', src.split('{{{')[0]):
            return None
    try:
        out = creole2html(src, blog_line_breaks=case['blog'], strict=case['strict'])
    except Exception:
        return None
    found = re.findall(f'<{tag}>(.*?)</{tag}>', out, re.S)
    got = [htmllib.unescape(f) for f in found]
    ref = re.findall(r'&(?!amp;|lt;|gt;|quot;)', ''.join(found))
    if ref:
        return f'unescaped & in {out!r}'
    if case['kind'] == 'inline':
        want = [expected] if t2 is None else [expected, t2]
        if got != want:
            return f'{tag} content {got!r} instead of {want!r} in {out!r}'
    elif len(got) != 1 or lead(got[0]) != lead(expected):
        return f'{tag} content {got!r} instead of {[expected]!r} in {out!r}'
    return None
