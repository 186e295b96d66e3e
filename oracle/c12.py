"""C12: entity decoding inverts escaping and decodes exactly once"""
import html
import re
from html.entities import name2codepoint

from oracle import gen_html

SHRINK = ('text',)
RULE = 'random strings with references of every kind; compared with an independent decoder; non-trivial: at least one &'
NAMES = sorted(name2codepoint)


def gen(r):
    out = ''
    for _ in range(r.randint(1, 6)):
        k = r.random()
        if k < .2:
            out += '&' + r.choice(NAMES) + r.choice([';', ';', ';', ''])
        elif k < .4:
            n = r.choice([r.randint(0, 0x110000 + 5), r.randint(0, 300), r.choice([0xd800, 0x10ffff, 0x110000, 10 ** 30])])
            out += r.choice([f'&#{n};', f'&#x{n:x};', f'&#X{n:X};', f'&#0{n};', f'&#x0{n:x};', f'&#{n}'])
        elif k < .6:
            out += r.choice(gen_html.REFS + ['&amp;amp;', '&amp;#65;', '&#38;lt;', '&amp;amp;lt;', '&#٣;', '&#x٣;', '&_;', '&a b;', '&#-1;', '&#+5;', '&# 5;', '&#1_0;', '&nbsp;', '&named;', '&number;', '&;', '&&lt;', '&lt;;', '&lt&gt;'])
        else:
            out += r.choice(gen_html.TEXTS + ['&', ';', '#', 'x', 'amp;', '\x00', '\n'])
    return dict(text=out)


def fixed():
    for n in NAMES:
        yield dict(text=f'&{n};')
        yield dict(text=f'a&{n};&amp;{n};b')
    for i in list(range(0, 400)) + [0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 10 ** 20]:
        yield dict(text=f'x&#{i};&#x{i:x};&#X{i:X};y')
    for c in list(map(chr, range(0, 300))) + ['漢', '\U0001f600', '\u2028']:
        yield dict(text=c + '<' + c + '&' + c + '"' + c)
    for s in ('&amp;', '&lt;&#65;', 'a&uuml;\n', '&zz;&#x41;', '<&"'):
        yield dict(text=s * 1500)


def nontrivial(case):
    return '&' in case['text']


REF = re.compile(r'&(?:#([0-9]+)|#[xX]([0-9a-fA-F]+)|([a-zA-Z][a-zA-Z0-9]*));')


def decode(m):
    try:
        if m.group(1):
            return chr(int(m.group(1)))
        if m.group(2):
            return chr(int(m.group(2), 16))
    except (ValueError, OverflowError):
        return m.group(0)
    if m.group(3) == 'nbsp':
        return ' '
    if m.group(3) in name2codepoint:
        return chr(name2codepoint[m.group(3)])
    return m.group(0)


def check(case):
    from creole.html_tools.deentity import Deentity
    s = case['text']
    d = Deentity()
    try:
        for esc in (html.escape(s, quote=False), s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')):
            got = d.replace_all(esc)
            if got != s:
                return f'{esc!r} is decoded to {got!r} instead of {s!r}'
        if re.search(r'&#[xX]?[^\x00-\x7f]|&#[0-9]*[^\x00-\x7f]', s):
            return None
        got = d.replace_all(s)
        want = REF.sub(decode, s)
        if got != want:
            return f'{s!r} is decoded to {got!r} instead of {want!r}'
    except Exception as e:
        return f'raised {type(e).__name__}: {e}'
    return through_converters(s)


def through_converters(s):
    """references in html text and in pre areas are decoded once"""
    import creole
    if re.search(r'[\s<>\\]', s) or re.search(r'&(?!#?[0-9a-zA-Z]+;)', s):
        return None
    want = REF.sub(decode, s)
    if not want.strip() or re.search(r'\s', want) or '&#' in want:
        return None
    out = creole.html2creole(f'<p>A{s}Z</p>')
    # the ; of unknown named references is dropped
    want2 = REF.sub(lambda m: decode(m) if decode(m) != m.group(0) or not m.group(3) else m.group(0)[:-1], s)
    if out != f'A{want2}Z':
        return f'html2creole gives {out!r} instead of {"A" + want2 + "Z"!r}'
    out = creole.html2creole(f'<p>A<pre>{s}</pre>Z</p>')
    if '{{{' + want + '}}}' not in out:
        return f'html2creole of a pre area gives {out!r} instead of {want!r}'
    return None
