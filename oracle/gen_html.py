"""random html documents: structured, ragged, malformed"""
import re

INLINE = ['b', 'strong', 'i', 'em', 'tt', 'code', 'span', 'small', 'del', 'sup', 'sub', 'u', 'big', 'strike', 'ins', 'cite', 'x-y', 'font', 'label', 'a', 'kbd', 'unknown', 'data', 'document', 'headline', 'hr2', 'textarea', 'button', 'emit', 'option']
BLOCK = ['p', 'div', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'li', 'table', 'tr', 'td', 'th', 'tbody', 'thead', 'blockquote', 'pre', 'form', 'fieldset', 'dl', 'dt', 'dd', 'section', 'caption', 'center', 'address', 'hr', 'br', 'img', 'script', 'style', 'noscript', 'title', 'h7', 'h0', 'input', 'blockdata', 'inlinedata', 'li2']
TEXTS = ['foo', 'bar baz', 'x', '1', 'ü', '漢字', 'a b  c', 'AA\nBB', ' ', '\n', '  \n ', '*', '**', '#', '|', 'a|b', '=', '`', '``', '_', '\\', '-', '"', "'", '}}}', '{{{', '[[', ']]', '//', 'http://a.b', '> ', 'a>b', ': ', '<<', '\t', 'x\ty', '\u00a0', '\u2028', '\x0b', '\x85', '~', '+', '---', '===', '..', '::']
REFS = ['&amp;', '&lt;', '&gt;', '&quot;', '&nbsp;', '&uuml;', '&#65;', '&#x41;', '&#X41;', '&#0;', '&#1114112;', '&#99999999999999;', '&#xffffffffff;', '&foo;', '&foo', '& ', '&', '&#', '&#x', '&#x;', '&sup2;', '&frac12;', '&apos;', '&#10;', '&#xd800;', '&amp;lt;', '&bull', '&a-b;', '&there4;', '&Aacute;', '&#x110000;', '&lang;']
URLS = ['http://a.b/c', '/x.png', 'data:image/png;base64,AA', '', 'a b', 'http://[x', 'http://[::1]/x', '#a', 'x?y=1&amp;z=2', 'mailto:x@y', '//[', 'a|b', 'ftp://x/é', 'http://a.b/c', '/x.png', 'javascript:1', 'http://x:y/z']


def text(r):
    k = r.random()
    if k < .45:
        return ''.join(r.choice('abcdefghij') for _ in range(r.randint(1, 5)))
    if k < .8:
        return r.choice(TEXTS)
    return r.choice(REFS)


def texts(r):
    return r.choice(['', ' ', ' ']).join(text(r) for _ in range(r.randint(1, 3)))


def attrs(r, tag):
    out = ''
    names = {'a': ['href', 'title', 'name', 'href'], 'img': ['src', 'alt', 'title', 'width', 'height', 'src'], 'code': ['class'], 'li': ['class', 'value'], 'blockdata': ['id', 'type'], 'inlinedata': ['id', 'type']}.get(tag, ['class', 'id', 'style', 'foo'])
    for n in names:
        if r.random() < .5:
            v = r.choice(URLS) if n in ('href', 'src') else r.choice(['x', '', 'a b', 'é', '&lt;', 'language-python', '10', '0', 'pre', 'pass', '-1', '<b>', "it's", 'x' * 9, '&#1114112;', '>'])
            k = r.random()
            if k < .8:
                out += f' {n}="{v}"'
            elif k < .88:
                out += f" {n}='{v}'"
            elif k < .95:
                out += f' {n}'
            else:
                out += f' {n}={v.split(" ")[0]}'
    return out


def element(r, d, tag=None):
    tag = tag or r.choice(INLINE if r.random() < .5 else BLOCK)
    a = attrs(r, tag) if tag in ('a', 'img', 'code', 'blockdata', 'inlinedata') or r.random() < .15 else ''
    if tag in ('img', 'br', 'hr', 'input', 'blockdata', 'inlinedata') and r.random() < .9 or r.random() < .04:
        return f'<{tag}{a}{r.choice([" /", "/", ""])}>'
    inner = texts(r) if d <= 0 else content(r, d - 1)
    if tag == 'a' and r.random() < .3:
        m = re.search(r'(?:href|title|name)="([^"]*)"', a)
        if m and m.group(1):
            u = m.group(1)
            inner = r.choice([u, u.upper(), u.title(), u + '/', u[1:], u[:-1], u.partition(':')[2] or u, u + ' x'])
    if tag == 'pre' and r.random() < .3:
        inner = '<code' + r.choice(['', ' class="language-py"', ' class', ' class="x"']) + '>' + inner + '</code>'
    if tag == 'pre' and r.random() < .3:
        return f'\n<pre>\n{inner}\n</pre>\n'
    if r.random() < .04:
        return f'<{tag}{a}>{inner}'
    if r.random() < .03:
        return f'{inner}</{tag}>'
    if r.random() < .03:
        tag2 = tag.upper()
        return f'<{tag2}{a}>{inner}</{tag}>'
    return f'<{tag}{a}>{inner}</{tag}>'


def lst(r, d):
    tag = r.choice(['ul', 'ol'])
    out = f'<{tag}>'
    for _ in range(r.randint(1, 4)):
        out += r.choice(['', '\n', '']) + '<li>' + texts(r)
        if d > 0 and r.random() < .5:
            out += lst(r, d - 1) + r.choice(['', '', 'tail'])
        if r.random() < .2:
            out += content(r, 0)
        out += '</li>' if r.random() < .95 else ''
        if d > 0 and r.random() < .2:
            out += lst(r, d - 1)
    return out + f'</{tag}>' + r.choice(['', '\n'])


def table(r, d):
    out = '<table>' + r.choice(['', '', '<tbody>', '<caption>cap</caption>', 'out'])
    for _ in range(r.randint(0, 4)):
        out += r.choice(['', '\n']) + ('<tr>' if r.random() < .95 else '')
        for _ in range(r.randint(0, 4)):
            c = r.choice(['td', 'td', 'th'])
            inner = content(r, d - 1) if d > 0 and r.random() < .6 else r.choice([texts(r), '', 'a<br />b', '<p>x</p><p>y</p>'])
            out += f'<{c}>{inner}' + (f'</{c}>' if r.random() < .95 else '')
        out += '</tr>' if r.random() < .95 else ''
    return out + r.choice(['', '</tbody>']) + '</table>'


def content(r, d):
    out = ''
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < .4:
            out += texts(r)
        elif k < .75:
            out += element(r, d)
        elif k < .87:
            out += lst(r, min(d, 2))
        else:
            out += table(r, min(d, 1))
        out += r.choice(['', '', ' ', '\n'])
    return out


NASTY = ['<', '>', '</', '/>', '&', '&#', ';', '"', "'", '<!--', '-->', '<!', '<?', '?>', '<![CDATA[', ']]>', '<p>', '</p>', '<td>', '</td>', '<tr>', '</tr>', '<table>', '</table>', '<li>', '</li>', '</ul>', '<ul>', '<ol>', '</ol>', '<pre>', '</pre>', '<b>', '</b>', '<a href>', '</a>', '<img>', '<br>', '</br>', '</div>', '<h1>', '</h1>', '</html>', ' ', '\n', '=', 'a', 'b', '&lt;', '&#x', '<script>', '</script>', '<!DOCTYPE html>', '\x00', '<a', '<1', '<hr>', '</x>', '<td/>', '<li/>', '<ul/>', '<p/>', '<code>', '</code>', '<tbody>']


def mutate(r, s):
    for _ in range(r.randint(1, 3)):
        i = r.randint(0, len(s))
        k = r.random()
        if k < .5:
            s = s[:i] + r.choice(NASTY) + s[i:]
        elif k < .75:
            s = s[:i] + s[i + r.randint(1, 5):]
        else:
            j = r.randint(0, len(s))
            s = s[:i] + s[j:j + r.randint(1, 20)] + s[i:]
    return s


def noise(r):
    return ''.join(r.choice(NASTY) for _ in range(r.randint(1, 10)))


def document(r):
    out = ''
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .5:
            out += element(r, 3, r.choice(BLOCK))
        elif k < .7:
            out += lst(r, 3)
        elif k < .85:
            out += table(r, 2)
        else:
            out += content(r, 2)
        out += r.choice(['', '\n', ' '])
    return out


def source(r):
    k = r.random()
    if k < .6:
        return document(r)
    if k < .85:
        return mutate(r, document(r))
    return noise(r)


def long():
    """long documents: nothing is limited to a number of elements, lines or characters"""
    w = [f'w{i}' for i in range(1200)]
    yield ' '.join(w)
    yield '\n'.join(w)
    yield '<p>' + '</p><p>'.join(w[:500]) + '</p>'
    yield '<ul>' + ''.join(f'<li>{x}</li>' for x in w[:300]) + '</ul>'
    yield '<table>' + ''.join(f'<tr><td>{x}</td><td>b{x}</td></tr>' for x in w[:200]) + '</table>'
    yield '<table><tr>' + ''.join(f'<td>{x}</td>' for x in w[:300]) + '</tr></table>'
    yield ''.join(f'<h{i % 6 + 1}>{x}</h{i % 6 + 1}>' for i, x in enumerate(w[:300]))
    yield '<p>' + ' '.join(f'<b>{x}</b> <i>{x}b</i> <a href="/{x}">l{x}</a> <x>u{x}</x>' for x in w[:150]) + '</p>'
    yield '<p>' + '<br>'.join(w[:300]) + '</p>'
    yield '<pre>' + '\n'.join(w) + '</pre>'
    yield ''.join(f'\n<pre>\n{x}\n</pre>\n' for x in w[:200])
    yield ' '.join(f'<pre>{x}</pre>' for x in w[:70])
    yield '<td>' + ' '.join(w) + '</td>'
    yield '<h1>' + ' '.join(w) + '</h1>'
    yield '<li>' + ' '.join(w)
    yield '&amp;&#65;&uuml;&zz;' * 300
    yield '<pre>' + '&amp;&#65;&uuml;&zz;' * 300 + '</pre>'
    yield ''.join(f'<{"div" if i % 2 else "span"}>{x}' for i, x in enumerate(w[:60]))
    yield ''.join(f'{x}</b>' for x in w[:300])
