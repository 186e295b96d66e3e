"""C06: the table of contents"""
import html as htmllib
import re
from html.parser import HTMLParser

from oracle import gen_creole

SHRINK = ('heads',)
RULE = 'random sequences of headings (level, text), a <<toc>> with or without depth at any place, text between; non-trivial: at least two headings'
TEXTS = ['a', 'b', 'Foo Bar', 'x"y', '<t>', 'a&b', '&lt;', '**b**', '<<toc>>', "it's", '漢', 'a', 'x > y', '{{{c}}}', '[[l]]', '#', '1', 'a~b', '%s', '<<m>>', '\t', 'A  B', '<ul>', '</li>', '&quot;', '<p><<toc>></p>']


def gen(r):
    n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 8])
    level = 1
    heads = []
    for i in range(n):
        level = r.randint(1, 6) if r.random() < .5 else max(1, min(7, level + r.choice([-2, -1, 0, 1, 1, 2])))
        t = r.choice(TEXTS) if r.random() < .5 else ''.join(r.choice('abcde ') for _ in range(r.randint(1, 5))).strip() or 'z'
        heads.append([level, t])
    return dict(heads=heads, depth=r.choice([None, None, 0, 1, 2, 3, 4, 6, 10]), pos=r.randint(0, n), second=r.choice([None, None, r.randint(0, n)]), own=r.random() < .6, blog=r.random() < .7, obj=r.random() < .3, strict=r.random() < .2)


def fixed():
    import itertools
    for n in (1, 2, 3, 4):
        for ls in itertools.product((1, 2, 3, 4) if n < 4 else (1, 2, 3), repeat=n):
            for depth in (None, 2) if n < 4 else (None,):
                yield dict(heads=[[lv, f'h{i}'] for i, lv in enumerate(ls)], depth=depth, pos=0, second=None, own=True, blog=True, obj=False, strict=False)
    yield dict(heads=[[1 + i % 3, f'h{i}'] for i in range(150)], depth=None, pos=0, second=None, own=True, blog=True, obj=False, strict=False)
    for n in range(4):
        yield dict(heads=[[1, 'a'], [3, 'b'], [2, 'c']], depth=None, pos=n, second=n, own=True, blog=True, obj=False, strict=False)
        yield dict(heads=[[1, 'a'], [3, 'b'], [2, 'c']], depth=2, pos=n, second=3, own=False, blog=True, obj=True, strict=False)


def nontrivial(case):
    return len(case['heads']) >= 2


class P(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.entries = []   # (depth, href, text)
        self.anchors = []   # (name, level, text)
        self.uls = []       # top level ul count
        self.a = None
        self.bad = None

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == 'ul' and 'ul' not in self.stack:
            self.uls.append(len(self.anchors))
        if tag == 'a':
            self.a = [d, '', self.stack.count('ul'), None, 'li' in self.stack]
        elif re.fullmatch('h[0-9]+', tag) and self.a:
            self.a[3] = int(tag[1:])
        if tag not in ('br', 'hr', 'img'):
            self.stack.append(tag)

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1] != tag:
            self.bad = f'unexpected </{tag}> in {self.stack}'
            return
        self.stack.pop()
        if tag == 'a' and self.a:
            d, text, depth, level, in_li = self.a
            if 'name' in d:
                self.anchors.append((d['name'], level, text))
            elif in_li:
                self.entries.append((depth, d.get('href'), text))
            self.a = None

    def handle_data(self, data):
        if self.a is not None:
            self.a[1] += data


def text_of(t):
    return re.sub(r'(=|\s)*$', '', t.strip()).strip()


def check(case):
    from creole import creole2html
    heads = [(lv, t) for lv, t in case['heads']]
    case = dict(case, pos=min(case['pos'], len(heads)))
    if not case['blog'] and any('<<' in t for _l, t in heads):
        return None
    parts = []
    toc = '<<toc>>' if case['depth'] is None else f'<<toc depth={case["depth"]}>>'
    for i in range(len(heads) + 1):
        if i == case['pos']:
            parts.append(('PRE' if case['own'] else 'PRE\n\n') + ('\n\n' if case['own'] else '') + toc + '\n\nPOST')
        if case['second'] == i and i >= case['pos']:
            parts.append('SEC <<toc>> END')
        if i < len(heads):
            parts.append('=' * heads[i][0] + ' ' + heads[i][1])
            parts.append(f'text{i}')
    src = '\n\n'.join(parts)
    norm = [(lv, text_of(t)) for lv, t in heads]
    if any(not t or t.startswith('=') for _lv, t in norm):
        return None
    if re.search(r'<<\s*(\w+).*?>>(.|\n)*?<</\s*\1', src):
        return None
    try:
        out = creole2html(src, blog_line_breaks=case['blog'], macros=object() if case['obj'] else None, strict=case['strict'])
    except Exception as e:
        return f'raised {e!r}'
    p = P()
    p.feed(out)
    p.close()
    if p.bad:
        return f'{p.bad} in {out!r}'
    if not case['blog']:
        norm = [a[1:] for a in p.anchors]  # a heading after a paragraph continues it
    d = case['depth']
    want = [(lv, t) for lv, t in norm if d is None or lv <= d]
    got = [(dp, t) for dp, _h, t in p.entries]
    if got != want:
        return f'toc entries (depth, text) {got!r} instead of {want!r}: {out!r}'
    if [a[1:] for a in p.anchors] != norm:
        return f'headings {p.anchors!r} instead of {norm!r}'
    names = [a[0] for a in p.anchors]
    need = [n for n, (lv, t) in zip(names, norm) if d is None or lv <= d]
    if [h for _d, h, _t in p.entries] != ['#' + n for n in need]:
        return f'link targets {[h for _d, h, _t in p.entries]} do not fit the anchors {names}'
    if len(p.uls) != 1:
        return f'{len(p.uls)} lists instead of one: {out!r}'
    if p.uls[0] != case['pos'] and case['blog']:
        return f'the list is placed before heading {p.uls[0]} instead of {case["pos"]}: {out!r}'
    i, j, k = out.find('PRE'), out.find('<ul>'), out.find('POST')
    if not (i < j < k):
        return f'the list is not at the place of the macro: {out!r}'
    if case['second'] is not None and case['second'] >= case['pos'] and 'SEC &lt;&lt;toc&gt;&gt; END' not in out:
        return f'the further <<toc>> is no literal text: {out!r}'
    return None
