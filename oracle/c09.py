"""C09: the html converters keep all visible text, in order"""
import html
import re
from html.entities import name2codepoint
from html.parser import HTMLParser

from oracle import gen_html
from oracle.c08 import CONV

SHRINK = ('src',)
RULE = 'random html; the text that html.parser reports (references decoded, without whitespace and backslashes) must be a subsequence of each result; text in tables is compared per cell; non-trivial: at least three text characters'


def gen(r):
    s = gen_html.source(r)
    if r.random() < .7:
        n = [0]

        def num(m):
            n[0] += 1
            return f'{m.group(1)}{m.group(2)}{n[0]}'
        s = re.sub(r'(>|^|\s)([a-j]{1,5})(?=[\s<]|$)', num, s)
    return dict(src=s)


def fixed():
    for s in ['a<hr>b', 'a</p>b</div>c', '<table><tr><td>a<td>b<tr><td>c</table>d', '<table>x<tr><td>a</td></tr>y</table>z', '<td>a</td>b', '<ul><li>a<ul><li>b</li></ul>c</li></ul>d', '<pre>a<b>c</b></pre>d',
              '<table><tr><td>a</td><td>b</td></tr><tr><td>c</td></tr><tr><td>d</td><td>e</td><td>f</td></tr></table>', '<table><tr><td><table><tr><td>a</td></tr></table>b</td></tr></table>c', 'a</b></b></b>b', 'a &amp; b &lt; c',
              '<h1>a</h1>b<h2>c', '<p>a<p>b</p>c', '<unknown>a<i>b</i></unknown>c', 'a<br>b<br/>c', '<a name="x">a</a>b', '<a>b</a>', '<li>a</li>', '<code>a`b</code>c', '<pre><code>a &lt; b</code></pre>c', 'x\n<pre>\na\n b\n</pre>\ny',
              '<div>a\nb</div>c', '<table><caption>a</caption><tr><th>b</th></tr></table>', '<script>a</script>b', '<textarea>a</textarea>b', '<b>a</b><i>b</i>c', '<table><tr>x<td>a</td>y</tr></table>', '<tr><td>a</td></tr>b', '<ol><li>a</li></ol><ol><li>b</li></ol>',
              '<blockquote>a<p>b</p></blockquote>c', '<img src="x">a<img src="x">b', '<title>a</title>b', '<table></table>a', '<table><tr></tr></table>a', '<table><td>a</td></table>b', '<hr>a<hr/>b</hr>c', 'a<p/>b', '<ul/>a<li/>b', '<td/>a', '<table/>a', '<table><tr/><td/>a</table>b']:
        yield dict(src=s)
    # lines of punctuation only, and lines that look like markup
    marks = ['---', '===', '-', '=', '***', '* * *', '#', '##', '+', '|', '||', '~~~', '^^^', '...', '..', '::', ':', '`', '``', '_', '__', '----', '>', '0', '1.', '!', '$', '%', '(', ')', '[', ']', '{', '}', '"', "'", ';', ',', '/', '?', '@', '&amp;', '&lt;', '&gt;', '.. x::', '{{{', '}}}', '&lt;&lt;', 'h1.', 'bc.']
    for x in marks:
        for f in ('<pre>a\n%s\nb</pre>', '<pre>%s</pre>', '<pre>\n%s\n\n%s x\n</pre>c', '<p>a</p><p>%s</p><p>b</p>', '<ul><li>%s</li><li>b</li></ul>', '<table><tr><th>%s</th></tr><tr><td>%s</td><td>b</td></tr></table>', '<h2>%s</h2>a', '<b>%s</b> a', '<tt>%s</tt> a', '<a href="u">%s</a> a', '<foo>%s</foo>', 'a<br>%s<br>b', '<blockquote>%s</blockquote>a', 'a <i>%s</i>', '<del>%s</del>'):
            yield dict(src=f.replace('%s', x))
    yield from __import__('oracle.c08', fromlist=['x']).fixed()


class P(HTMLParser):
    """the visible text as html.parser reports it; in_table: the parts outside of the cells of a table"""

    def __init__(self):
        super().__init__(convert_charrefs=False)
        self.out = []       # (in table, text)
        self.tables = 0
        self.has_table = False

    def add(self, t):
        self.out.append(t)

    def handle_data(self, d):
        self.add(d)

    def handle_entityref(self, name):
        if name == 'nbsp':
            self.add(' ')
        elif name in name2codepoint:
            self.add(chr(name2codepoint[name]))
        else:
            self.add('&' + name)

    def handle_charref(self, name):
        try:
            n = int(name[1:], 16) if name[:1] in 'xX' else int(name)
            self.add(chr(n))
        except (ValueError, OverflowError):
            self.add(f'&#{name};')

    def handle_starttag(self, tag, attrs):
        if tag == 'table':
            self.has_table = True

    handle_startendtag = handle_starttag


def visible(src):
    p = P()
    p.feed(src.strip())
    p.close()
    return ''.join(p.out), p.has_table


def sig(t):
    return [c for c in t if not c.isspace() and c != '\\']


def nontrivial(case):
    try:
        return len(sig(visible(case['src'])[0])) >= 3
    except Exception:
        return False


def lost(need, have):
    it = iter(have)
    for i, c in enumerate(need):
        if c not in it:
            return i
    return None


MISPLACED_PRE = re.compile(r'<!|<\?|<script|<style|<textarea|<title|<xmp|<iframe|<noembed|<noframes|<plaintext', re.I)


def check(case):
    import creole
    src = case['src']
    if re.search('<pre>', src) and (MISPLACED_PRE.search(src) or re.search(r'''["'=<][^<>]*<pre>''', src)):
        return None  # <pre> inside of a comment, script or attribute value
    if '<pre>' in src and re.search(r'&#(?![0-9xX])|&#[xX](?![0-9a-fA-F])', src):
        return None  # html.parser takes the end tag after an incomplete reference as text
    if '<pre>' in src and re.search(r'&#?\w+(?![\w;])', src):
        return None  # references without semicolon are resolved by html.parser only
    try:
        text, has_table = visible(src)
    except Exception:
        return None
    need = sig(text)
    for name in CONV:
        try:
            out = getattr(creole, name)(src)
        except Exception:
            continue  # C08
        have = sig(out)
        if has_table:
            # the content outside of the cells may be placed before the table: compare the characters
            from collections import Counter
            miss = Counter(need) - Counter(have)
            if miss:
                return f'{name} lost the characters {dict(miss)}: {out!r}'
            continue
        i = lost(need, have)
        if i is not None:
            return f'{name}: character {need[i]!r} (after {"".join(need[max(0, i - 15):i])!r}) is lost or out of order in {out!r}'
    return order_in_tables(src)


def order_in_tables(src):
    """documents with tables, where all text is inside of cells: the order must hold, too"""
    if not re.search(r'<table>', src):
        return None
    if not plain_tables(src):
        return None
    import creole
    need = sig(visible(src)[0])
    for name in CONV:
        try:
            out = getattr(creole, name)(src)
        except Exception:
            continue
        i = lost(need, sig(out))
        if i is not None:
            return f'{name}: character {need[i]!r} (after {"".join(need[max(0, i - 15):i])!r}) is out of order in {out!r}'
    return None


class T(HTMLParser):
    """are all start and end tags balanced and is there no text in a table outside of a cell?"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.ok = True

    def handle_starttag(self, tag, attrs):
        if tag in ('br', 'hr', 'img'):
            if self.stack and self.stack[-1] in ('table', 'tr', 'tbody'):
                self.ok = False
            return
        parent = self.stack[-1] if self.stack else None
        if tag == 'tr':
            self.ok &= parent in ('table', 'tbody')
        elif tag in ('td', 'th'):
            self.ok &= parent == 'tr'
        elif tag == 'tbody':
            self.ok &= parent == 'table'
        elif parent in ('table', 'tr', 'tbody'):
            self.ok = False
        self.stack.append(tag)

    def handle_startendtag(self, tag, attrs):
        if tag not in ('br', 'hr', 'img') or self.stack and self.stack[-1] in ('table', 'tr', 'tbody'):
            self.ok = False

    def handle_endtag(self, tag):
        if not self.stack or self.stack.pop() != tag:
            self.ok = False

    def handle_data(self, data):
        if data.strip() and self.stack and self.stack[-1] in ('table', 'tr', 'tbody'):
            self.ok = False


def plain_tables(src):
    if '<!' in src or '<?' in src:
        return False
    t = T()
    t.feed(src)
    t.close()
    return t.ok and not t.stack
