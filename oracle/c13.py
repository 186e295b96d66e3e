"""C13: whitespace cleanup changes nothing but whitespace"""
import re

from oracle import gen_html

SHRINK = ('text',)
RULE = 'random html and whitespace; non-trivial: the text contains whitespace'
WS = [' ', '\n', '\t', '  ', '\r', '\x0b', '\x0c', '\u00a0', '\u2028', '\x85', '\x1c', '\r\n', ' \n ', '\u3000']


def gen(r):
    s = gen_html.source(r) if r.random() < .7 else ''.join(r.choice(gen_html.TEXTS + WS + ['<b>', '</b>', '<br />', '<p>', '<x y>', '<', '>', '</', '/>', '< a>', '<a\nb>']) for _ in range(r.randint(1, 8)))
    for _ in range(r.randint(0, 4)):
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(WS) + s[i:]
    return dict(text=s)


def fixed():
    for w in WS:
        for s in ['a%sb', '%sa%s', 'a%s<b>b</b>', '<b>a</b>%sb', '<b>%sa%s</b>', 'a%s<br />%sb', 'a%s</i>%sb', 'a<p>%sb', '<a%sb>', 'x%s', '%s', 'a <b%s/>%sc', 'a%s<img src="x y" />%sb', 'a%s\nb', 'a\n%s\nb', '<x>%s<y>', '</x>%s</y>']:
            yield dict(text=s.replace('%s', w))
    for s in gen_html.long():
        yield dict(text=s)


def nontrivial(case):
    return any(c.isspace() for c in case['text'].strip())


def squeeze(s):
    return ''.join(c for c in s if not c.isspace())


def check(case):
    from creole.html_tools.strip_html import strip_html
    from creole.html_tools.text_tools import clean_whitespace
    s = case['text']
    try:
        out = strip_html(s)
        clean = clean_whitespace(s)
    except Exception as e:
        return f'raised {type(e).__name__}: {e}'
    if squeeze(out) != squeeze(s):
        return f'strip_html changes more than whitespace: {out!r}'
    # texts separated by whitespace and no tag stay separated
    pos = 0
    gaps = []  # number of non-space characters before each gap inside the text
    n = 0
    in_gap = False
    for c in s.strip():
        if c.isspace():
            in_gap = True
        else:
            if in_gap:
                gaps.append(n)
            in_gap = False
            n += 1
    sep = set()
    n = 0
    for c in out:
        if c.isspace():
            sep.add(n)
        else:
            n += 1
    flat = squeeze(s)
    # positions that belong to or border a tag
    for g in gaps:
        left, right = flat[g - 1], flat[g]
        if left in '>' or right == '<':
            continue
        if g not in sep:
            # inside or next to something that looks like a tag?
            return f'the space between {flat[max(0, g - 8):g]!r} and {flat[g:g + 8]!r} is lost: {out!r}'
    del pos
    body = s.strip()
    if clean.strip() != body or not clean.strip() == body:
        return f'clean_whitespace changes the text: {clean!r}'
    return None
