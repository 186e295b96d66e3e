"""C08: the html converters accept every html input"""
from oracle import gen_html

SHRINK = ('src',)
RULE = 'random html (structured, mutated, noise), all four converters; non-trivial: at least one tag or reference'
CONV = ('html2creole', 'html2textile', 'html2markdown', 'html2rest')


def gen(r):
    return dict(src=gen_html.source(r))


def nontrivial(case):
    return '<' in case['src'] or '&' in case['src']


def fixed():
    tags = gen_html.INLINE + gen_html.BLOCK + ['charref', 'entityref', 'blockdata_pre', 'blockdata_pass', 'inlinedata_pre', 'html', 'default', 'debug_msg', 'h10', 'h1x', 'x:y', 'é', 'node', 'deentity', 'root', '_list', 'col', 'tfoot', 'q', 'abbr']
    for t in tags:
        for s in ['<%s>', '<%s />', '<%s>x</%s>', 'a<%s>b', '</%s>x', '<p><%s>a<b>c</%s>d</p>', '<table><tr><td><%s>a</%s></td></tr></table>', '<%s a>x</%s>', '<ul><%s><li>a</li></%s></ul>', '<table><%s>x</%s></table>',
                  '<%s><%s>x</%s></%s>', '<%s id="0" type="pre" />', '<%s href>x', '<%s href="http://[a">x</%s>', '<%s src alt title>', '<a href="x"><%s>b</%s></a>', '<pre><%s>x</%s></pre>', '<%s>&zz;&#99999999999;</%s>']:
            yield dict(src=s.replace('%s', t))
    for ref in gen_html.REFS:
        for s in ['%s', 'a%sb', '<p>%s</p>', '<pre>%s</pre>', '\n<pre>\n%s\n</pre>\n', '<a href="%s">x</a>', '<td>%s</td>', '<img alt="%s" src="x">']:
            yield dict(src=s.replace('%s', ref))
    for u in gen_html.URLS:
        yield dict(src=f'<a href="{u}">x</a><img src="{u}"><img src="{u}" alt="{u}" title="">')
    for s in gen_html.long():
        yield dict(src=s)


def check(case):
    import creole
    from creole.emitter.html2rest_emitter import Html2restException
    for name in CONV:
        try:
            out = getattr(creole, name)(case['src'])
        except RecursionError:
            continue
        except Html2restException as e:
            if name == 'html2rest':
                continue
            return f'{name} raised {e!r}'
        except Exception as e:
            return f'{name} raised {type(e).__name__}: {e}'
        if not isinstance(out, str):
            return f'{name} returned {type(out)}'
    return None
