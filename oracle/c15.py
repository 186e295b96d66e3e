"""C15: html2rest defines every reference it uses, once, with one target"""
import re

SHRINK = ('items',)
RULE = 'random sequences of links and images (few names and targets) in paragraphs, cells, list items and headings; definitions and uses are collected from the result; non-trivial: at least two links or images'
NAMES = ['foo', 'Bar x', 'baz', 'q.png', 'ü']
URLS = ['/a', '/b', 'http://x.y/z', '/i.png', '/q.png', '', '/a/', '/A', 'http://x.y/z/', 'http://x.y/z#a', '/a?b', 'http://X.y/z', '//a', '/i.png?1', '/a b', '/x.', '/ü|']
PLACE = ['p', 'td', 'th', 'li', 'h', 'td2', 'table-li', 'div', 'text', 'b', 'tdp', 'br', 'many']


def gen(r):
    items = []
    name_url = {n: r.choice(URLS) for n in NAMES}
    consistent = r.random() < .75
    places = PLACE if r.random() < .2 else PLACE[:-1]
    for _ in range(r.randint(1, 6) if r.random() < .95 else r.randint(7, 20)):
        n = r.choice(NAMES)
        u = name_url[n] if consistent else r.choice(URLS)
        items.append([r.choice(['a', 'img', 'img']), n, u, r.choice(places), r.choice(['alt', 'title', 'none', 'both'])])
    return dict(items=items)


def fixed():
    import itertools
    for k1, k2 in itertools.product('ai', repeat=2):
        for p1, p2 in itertools.product(PLACE, repeat=2):
            for u2 in ('/a', '/b', '/a/', '/A', '/a#', '/a?'):
                for n2 in ('foo', 'baz'):
                    yield dict(items=[['a' if k1 == 'a' else 'img', 'foo', '/a', p1, 'alt'], ['a' if k2 == 'a' else 'img', n2, u2, p2, 'alt']])
    for p in PLACE:
        for p2 in PLACE:
            yield dict(items=[['a', 'foo', '', p, 'alt'], ['a', 'foo', '', p2, 'alt'], ['img', 'baz', '/b', p, 'alt'], ['img', 'baz', '/b', p2, 'title'], ['a', 'baz', '/a', p, 'alt']])
    yield dict(items=[['a', f'n{i}', f'/u{i}', PLACE[i % len(PLACE)], 'alt'] for i in range(120)] * 2)
    yield dict(items=[['img', f'n{i}', f'/u{i}', PLACE[i % len(PLACE)], 'alt'] for i in range(120)] * 2)
    yield dict(items=[['a', 'n' * 300, '/u' * 300, p, 'alt'] for p in PLACE])


def nontrivial(case):
    return len(case['items']) >= 2


def build(case):
    out = ''
    for kind, n, u, place, how in case['items']:
        if kind == 'a':
            x = f'<a href="{u}">{n}</a>'
        else:
            at = {'alt': f' alt="{n}"', 'title': f' title="{n}"', 'none': '', 'both': f' alt="{n}" title="x"'}[how]
            x = f'<img src="{u}"{at} />'
        out += {'p': f'<p>t {x} t</p>', 'td': f'<table><tr><td>{x}</td></tr></table>', 'th': f'<table><tr><th>{x}</th></tr><tr><td>c</td></tr></table>', 'li': f'<ul><li>{x}</li></ul>', 'h': f'<h2>{x}</h2>', 'td2': f'<table><tr><td>a</td><td>s {x} s</td></tr></table>',
                'table-li': f'<table><tr><td><ul><li>{x}</li></ul></td></tr></table>', 'div': f'<div>{x}</div>', 'text': f'tt {x} tt', 'b': f'<p><b>{x}</b></p>', 'tdp': f'<table><tr><td><p>{x}</p></td></tr></table>',
                'br': f'{x}<br />', 'many': f'<table><tr><td>{x}</td><td>{many()}</td></tr></table>'}[place]
    return out


def many():
    return ' '.join(f'<img src="/m{i}.png" alt="m{i}" />' for i in range(30))


def img_name(n, u, how):
    if how in ('alt', 'title'):
        return n
    if how == 'both':
        return n if len(n) > 1 else 'x'
    return u.rsplit('/', 1)[-1]


def check(case):
    import creole
    from creole.emitter.html2rest_emitter import Html2restException
    src = build(case)
    links, images = {}, {}
    if any(place == 'many' for _k, _n, _u, place, _h in case['items']):
        images = {f'm{i}': f'/m{i}.png' for i in range(30)}
    conflict = False
    for kind, n, u, place, how in case['items']:
        key = n if kind == 'a' else img_name(n, u, how)
        d = links if kind == 'a' else images
        if key == '' or place == 'b' and kind == 'a' and False:
            return None
        if key in d and d[key] != u:
            conflict = True
        d.setdefault(key, u)
    try:
        out = creole.html2rest(src)
    except Html2restException:
        return None if conflict else f'Html2restException without conflict for {src!r}'
    except Exception as e:
        return f'raised {type(e).__name__}: {e}'
    if conflict:
        return f'no Html2restException for {src!r}: {out!r}'
    defs = re.findall(r'^\.\. _(.+?): ?(.*)$', out, re.M)
    idefs = re.findall(r'^\.\. \|(.+?)\| image:: ?(.*)$', out, re.M)
    body = re.sub(r'^\.\. .*$', '', out, flags=re.M)
    inline = re.findall(r'`([^`<]*?) <([^>]*)>`_', body)
    named = re.findall(r'`([^`<]*)`_', re.sub(r'`[^`<]*? <[^>]*>`_', '', body))
    # the markup of tables contains bars, too
    isubs = [n for n in re.findall(r'\|([^|\n]*?)\|', body) if n in images]
    lt = [n for n, _u in defs + inline]
    for n in set(named) | set(lt):
        if lt.count(n) != 1:
            return f'link {n!r} is defined {lt.count(n)} times in {out!r}'
    for n, u in defs + inline:
        if links.get(n) != u.strip():
            return f'link {n!r} has the target {u!r} instead of {links.get(n)!r} in {out!r}'
    it = [n for n, _u in idefs]
    for n in set(images):
        if it.count(n) != 1:
            return f'image {n!r} is defined {it.count(n)} times in {out!r}'
        if n not in isubs and f'|{n}|' not in body:
            return f'image {n!r} is not used in {out!r}'
    for n, u in idefs:
        if images.get(n) != u.strip():
            return f'image {n!r} has the target {u!r} instead of {images.get(n)!r} in {out!r}'
    for n in links:
        if n not in named and n not in [x for x, _u in inline]:
            return f'link {n!r} is missing in {out!r}'
    # a definition is recognised only if it is a block of its own
    lines = out.split('\n')
    for i, ln in enumerate(lines):
        if ln.startswith('.. ') and i and lines[i - 1].strip() and not lines[i - 1].startswith('.. '):
            return f'the definition {ln!r} is inside of a paragraph in {out!r}'
        if ln.startswith('.. ') and i + 1 < len(lines) and lines[i + 1].strip() and not lines[i + 1].startswith('.. '):
            return f'the definition {ln!r} is inside of a paragraph in {out!r}'
    return None
