"""C01: creole2html returns well-formed, injection-free html"""
import re

from oracle import gen_creole, mac

SHRINK = ('src',)
KNOWN = 'C01-wrong-macro-arguments'
RULE = 'random creole sources (structured, mutated, noise) with tag, entity, quote and attribute markers, random options and macro tables; non-trivial: the source contains one of < > & "'

TOKEN = re.compile(r'''
    (?P<text>(?:[^<>&]|&(?:amp|lt|gt|quot);)+)
  | <(?P<end>/)?(?P<tag>[a-z][a-z0-9]*)(?P<attrs>(?:\s[a-z]+="(?:[^<>&"]|&(?:amp|lt|gt|quot);)*")*)(?P<empty>\s*/)?>
''', re.X)
NAMES = {'hr', 'p', 'ul', 'ol', 'li', 'table', 'tr', 'td', 'th', 'i', 'strong', 'tt', 'sup', 'sub', 'u', 'small', 'del', 'a', 'pre', 'img', 'br', 'code',
         'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'h7', 'h8', 'h9', 'b'}


def gen(r):
    case = mac.options(r)
    s = gen_creole.source(r)
    for _ in range(r.randint(0, 3)):
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(['<zq7>', '</zq7>', '<zq7/>', '<b>zq</b>', '"', '" zqa="', "'", '&amp;', '&zq8;', '&lt;zq9&gt;', '&', '<', '>', '"><zq7 a="', '&#60;', '<!--']) + s[i:]
    case['src'] = s
    return case


def nontrivial(case):
    return any(c in case['src'] for c in '<>&"')


def fixed():
    base = dict(form='dict', e=0, ret=0, blog=True, verbose=1, strict=False)
    bad = ['"', '<zq7>', '&', '</zq7>', '&zq8;', '&lt;zq9', '" zqa="1', "'", '&quot;', '<b>', '~<zq7>', '>']
    ctx = ['%s', '**%s**', '//%s//', '##%s##', '__%s__', '^^%s^^', ',,%s,,', '--%s--', '~~%s~~', '[[%s]]', '[[%s|a]]', '[[a|%s]]', '[[a|{{%s|b}}]]',
           '{{%s}}', '{{a|%s}}', '{{%s|b}}', '{{%s||1x2}}', '{{%s|t|1x2}}', '{{a|%s|1x2}}', '{{a|b|%s}}', '= %s', '= %s =\n<<toc>>', '<<toc>>\n== %s', '<<toc depth=%s>>\n= a', '{{{%s}}}',
           '{{{\n%s\n}}}', '|%s|', '|=%s|', '| [[%s|b]]|', '* %s', '# %s', '* a\n** %s', '<<m a=%s>>', "<<m a='%s'>>", '<<m>>%s<</m>>', '<<m>>\n%s\n<</m>>',
           '<<bad a=1>>%s<</bad>>', '<<none>>', '<<unk %s>>', '<<toc>>\n\n<<toc>>', 'http://a/%s', '~http://a/%s', 'a\\\\%s', '<<num %s=1>>', '<<M2 b=%s>>', '<<none a=%s>>', '=%s\n=%s\n<<toc>>\n===%s']
    for c in ctx:
        for b in bad:
            for v in (1, 2):
                for k in range(14 if '<<none' in c or '<<bad' in c else 1):
                    yield dict(base, src=c.replace('%s', b), verbose=v, e=k, ret=k)
        yield dict(base, src=c.replace('%s', '"<zq7>&'), strict=True, blog=False)
        yield dict(base, src=c.replace('%s', '"<zq7>&') + '\n' + c.replace('%s', '" zqa="'), form='none')
    for s in gen_creole.long():
        yield dict(base, src=s)
        yield dict(base, src='<<toc>>\n\n' + s)


def wellformed(html, src=None):
    stack = []
    pos = 0
    while pos < len(html):
        t = TOKEN.match(html, pos)
        if not t:
            return f'not well-formed at offset {pos}: {html[max(0, pos - 40):pos + 40]!r}'
        pos = t.end()
        if t.group('text') is not None:
            continue
        tag = t.group('tag')
        if tag not in NAMES and not re.fullmatch(r'h[0-9]+', tag):
            return f'the tag <{tag}> comes from the source: {t.group(0)!r}'
        for a in re.findall(r'\s([a-z]+)=', re.sub(r'"[^"]*"', '', t.group('attrs'))):
            if a.startswith('zq'):
                return f'attribute {a} comes from the source: {t.group(0)!r}'
        if t.group('end'):
            if t.group('attrs') or t.group('empty') or not stack or stack.pop() != tag:
                return f'end tag </{tag}> does not match at {t.start()}: {html[max(0, t.start() - 60):pos]!r}'
        elif not t.group('empty'):
            stack.append(tag)
    if stack:
        return f'elements not closed: {stack}'
    if src is not None:
        for e, raw in (('&lt;zq', '<zq'), ('&gt;zq', '>zq')):
            if e in html and e in src and raw not in src:
                return f'the characters {e!r} of the source are not escaped: the & must become &amp;'
        for e in ('&zq8;', '&#60;'):
            if e in html:
                return f'{e!r} of the source is not escaped'
    return None


WRONG = re.compile(r'\[Error: Wrong macro arguments: .*?\(maybe wrong macro tag syntax\?\)\]\n?', re.S)


def check(case):
    try:
        html = mac.convert(case)
    except Exception:
        return None  # C02
    if not isinstance(html, str):
        return f'the result is no str: {html!r}'
    msg = wellformed(html, case['src'])
    if msg:
        return f'{msg}; html: {html!r}'
    return None


def known(case, msg):
    """the notice about wrong macro arguments contains the arguments unescaped"""
    if 'Wrong macro arguments' not in msg:
        return None
    html = mac.convert(case)
    cut = WRONG.sub('', html)
    if cut != html and wellformed(cut, None) is None:
        return KNOWN
    return None
