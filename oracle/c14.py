"""C14: unknown tag handlers keep the content and treat the tag as chosen"""
import html
import json
import re

SHRINK = ('inner',)
RULE = 'random unknown elements with attributes and content (text, known and unknown elements), each handler, each converter; non-trivial: the element has content or attributes'
UNKNOWN = ['foo', 'x-y', 'section', 'xunknown', 'font', 'label', 'kbd', 'nav', 'data', 'headline', 'document', 'charref', 'entityref', 'h7', 'article', 'q', 'inlinedata_pre', 'input', 'dl']
HANDLERS = ['transparent_unknown_nodes', 'escape_unknown_nodes', 'use_html_macro', 'preformat_unknown_nodes', 'raise_unknown_node', None]
CONV = ['html2creole', 'html2textile', 'html2markdown', 'html2rest']
VALUES = [' x', 'y ', 'a  b', '007', 'X', 'None', 'v' * 120, 'x', 'a b', '', 'é', '1', "it's", '&lt;i&gt;', '&quot;q&quot;', 'a&amp;b', '-', '漢']


def inner(r, d=2):
    k = r.random()
    if k < .35 or d == 0:
        return r.choice(['txt', 'A B', 'q1', 'ü', '1&lt;2', 'x', '<br>', '&nbsp;', '<br />', '0', '&amp;lt;'])
    if k < .6:
        return inner(r, d - 1) + ' ' + inner(r, d - 1)
    if k < .8:
        return f'<b>{inner(r, d - 1)}</b>'
    t = r.choice(UNKNOWN)
    return f'<{t}{attrs(r)}>{inner(r, d - 1)}</{t}>'


def attrs(r):
    return ''.join(f' {n}="{r.choice(VALUES)}"' for n in r.sample(['a', 'b', 'class', 'data-x', 'zz', 'id', 'style', 'onclick', 'href', 'src', 'name', 'type', 'title', 'alt'], r.choice([0, 0, 1, 2, 3])))


def gen(r):
    return dict(tag=r.choice(UNKNOWN), attrs=attrs(r) + r.choice(['', '', '', ' flag']), inner=[inner(r) for _ in range(r.choice([0, 1, 1, 2]))], handler=r.choice(HANDLERS), conv=r.choice(CONV), empty=r.random() < .3, before=r.choice(['', 'pre ']), after=r.choice(['', ' post']))


def fixed():
    for t in UNKNOWN:
        for h in HANDLERS:
            for c in CONV:
                for a in ('', ' a="1"', ' z="x" b="&lt;"', ' flag', ' a=" x "', ' a="' + 'v ' * 150 + '"', ''.join(f' a{x}="{x}"' for x in 'zyxwvutsrqponmlkjihg'), ' a=""', ' a="  "', ' a="None"',
                          *(f' {n}="v1"' for n in ('id', 'class', 'style', 'onclick', 'href', 'src', 'name', 'type', 'title', 'alt', 'lang'))):
                    for i in ([], ['txt'], ['<br>'], ['&nbsp;'], ['0'], ['x', '<b>y</b>'], ['<foo b="2">in</foo>']):
                        yield dict(tag=t, attrs=a, inner=i, handler=h, conv=c, empty=not i, before='', after='')


def nontrivial(case):
    return bool(case['inner'] or case['attrs'])


def attr_text(a):
    """name=json value, sorted by name"""
    d = {}
    for n, _e, v in re.findall(r'\s([a-z-]+)(="([^"]*)")?', a):
        d[n] = html.unescape(v)
    return ''.join(f' {k}={json.dumps(v)}' for k, v in sorted(d.items()))


def check(case):
    import creole
    from creole.shared import unknown_tags as u
    t, a = case['tag'], case['attrs']
    text = ' '.join(case['inner'])
    empty = not text
    elem = f'<{t}{a} />' if empty and case['empty'] else f'<{t}{a}>{text}</{t}>'
    src = f'<p>{case["before"]}{elem}{case["after"]}</p>'
    h = getattr(u, case['handler']) if case['handler'] else None
    f = getattr(creole, case['conv'])
    if case['conv'] == 'html2textile' and t in ('cite', 'ins'):
        return None
    try:
        out = f(src, unknown_emit=h)
    except NotImplementedError as e:
        if case['handler'] == 'raise_unknown_node':
            return None
        return f'raised {e!r}'
    except Exception as e:
        return f'raised {type(e).__name__}: {e}'
    if case['handler'] == 'raise_unknown_node':
        return f'no NotImplementedError for {src!r}: {out!r}'
    # the content as it is written without the element; nested elements with the same handler
    content = f(f'<p>A{text}Z</p>', unknown_emit=h).strip()
    if not (content.startswith('A') and content.endswith('Z')):
        return f'content is not kept: {content!r}'
    content = content[1:-1]
    at = attr_text(a)
    sq = lambda s: re.sub(r'[\s\\]+', '', s)  # the line breaks of transparent elements  # noqa
    if case['handler'] in ('transparent_unknown_nodes', None):
        want = case['before'] + content + case['after']
    else:
        def tagtext(s):
            if case['handler'] == 'escape_unknown_nodes':
                return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            m = 'html' if case['handler'] == 'use_html_macro' else 'pre'
            return f'<<{m}>>{s}<</{m}>>'
        if not content:
            want = tagtext(f'<{t}{at} />')
        else:
            want = tagtext(f'<{t}{at}>') + content + tagtext(f'</{t}>')
        want = case['before'] + want + case['after']
    if case['handler'] not in ('transparent_unknown_nodes', None) and at and (tagtext(at) if case['handler'] == 'escape_unknown_nodes' else at) not in out:
        return f'{case["conv"]} with {case["handler"]}: the attributes {at!r} are not in {out!r} for {src!r}'
    if sq(out) != sq(want):
        return f'{case["conv"]} with {case["handler"]}: {out!r} instead of {want!r} for {src!r}'
    return None
