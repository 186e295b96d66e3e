"""C03: creole2html keeps all text, in order"""
import re
from html.parser import HTMLParser

from oracle import gen_creole

SHRINK = ('src',)
RULE = 'random creole sources without <<; the source characters other than whitespace and markup characters must be a subsequence of the text and attribute values; non-trivial: at least three such characters'
MARKUP = set('*/#_^,-~\\{}[]|=<>:!.')


def gen(r):
    while True:
        s = gen_creole.source(r, macros=False).replace('<<', '<')
        if '<<' not in s:
            break
    # label the positions, so that reordering and loss show
    if r.random() < .6:
        n = [0]

        def num(m):
            n[0] += 1
            return f'{m.group(0)}{n[0]}'
        s = re.sub(r'[A-Za-zäöü漢]{2,}(?![A-Za-z:])', num, s)
    return dict(src=s, blog=r.random() < .6, strict=r.random() < .4)


def fixed():
    for s in ['a{{b|c|10x20}}d', 'a{{b|c|10x20x30}}d', 'a{{b|c|x20}}d', 'a{{b|c|10x}}d', 'a{{b||7x8}}d', 'a{{b|c|10 x 20 e}}d', 'a{{b|c|1|2x3}}d', 'a{{b|c|+1x2}}', 'a{{b|c|1xx2}}', 'a{{b|c|1x2.5}}', 'a{{b|c|010x020}}', 'a{{b|c|10X20}}']:
        yield dict(src=s, blog=True, strict=False)
        yield dict(src=s, blog=True, strict=True)
    for s in ['* a\n** b\n* c\n\nd', '|a|b|\nc', '= h\np\n\nq', 'a~b', 'a~*b', '[[x]]~y', 'x ~http://a/b', 'http://a/b c', '* a\n# b\n* c', '|=a|b\n|c|=d', 'a\\\\b', '**a//b//c**d', '{{{\nx\n}}}\ny',
              '* a\n\n* b', '[[a|b{{c|d}}e\\\\f]]g', '|a {{{b|c}}} d|e|', '## a ## b', '**a', '{{a|b', '~~x~~y', 'a\n\n----\nb', '*a\n* b\n** c\nd\n\ne', '||a||b', '= \nx', '{{{a}}}b{{{c}}}', 'a\n|b|\nc\n* d\ne\n= f\ng']:
        yield dict(src=s, blog=True, strict=False)
        yield dict(src=s, blog=False, strict=True)
    for s in gen_creole.long():
        yield dict(src=s, blog=True, strict=False)


class P(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out = []

    def handle_data(self, d):
        self.out.append(d)

    def handle_starttag(self, tag, attrs):
        for _n, v in attrs:
            self.out.append(v or '')
    handle_startendtag = handle_starttag


def content(html):
    p = P()
    p.feed(html)
    p.close()
    return ''.join(p.out)


def significant(s):
    return [c for c in s if not c.isspace() and c not in MARKUP]


def nontrivial(case):
    return len(significant(case['src'])) >= 3


def size(m):
    return ' '.join(re.sub(r'[-+_\s]', '', g).lstrip('0') for g in m.groups())


def find_lost(need, have):
    it = iter(have)
    for i, c in enumerate(need):
        if c not in it:
            return i
    return None


def check(case):
    from creole import creole2html
    src = case['src']
    if '<<' in src or '\x00' in src:
        return None
    strict = case['strict']
    try:
        html = creole2html(src, blog_line_breaks=case['blog'], strict=strict)
    except Exception:
        return None  # C02
    if not strict:
        # the size of an image becomes its width and height
        src = re.sub(r'(?<=\|)(\s*[+-]?[0-9_]+\s*)x(\s*[+-]?[0-9_]+\s*)(?=\}\})', size, src)
        src = re.sub(r'\|[\s+\d_-]+x[\s+\d_-]+\}\}', '|}}', src) if re.search(r'[^\W0-9a-zA-Z]', src) else src
    need = significant(src)
    have = content(html)
    i = find_lost(need, have)
    if i is not None:
        return f'character {need[i]!r} (after {"".join(need[max(0, i - 15):i])!r}) is lost or out of order in {html!r}'
    return None
