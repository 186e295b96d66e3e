"""C07: a conversion depends on its arguments only and leaves them unchanged"""
import contextlib
import io
import os
import pickle
import copy

from oracle import gen_creole, gen_html, mac

SHRINK = ('hist', 'src')
RULE = 'random histories of conversions; in one forked process the last conversion is done alone, in another one after the history (sharing macro tables and option objects); non-trivial: a history of at least one conversion'
CONV = ['creole2html', 'html2creole', 'html2rest', 'html2textile', 'html2markdown']


def one(r):
    k = r.choice(['creole2html', 'creole2html'] + CONV)
    if k == 'creole2html':
        s = gen_creole.source(r)
        if r.random() < .5:
            s = '<<toc>>\n\n= ' + gen_creole.words(r) + '\n' + s
        return [k, s, r.choice([0, 1, 2]), r.random() < .6, r.random() < .2]
    s = gen_html.source(r)
    if k == 'html2rest' and r.random() < .3:
        s += '<img src="/%d.png" alt="%s"> <img src="/%d.png" alt="%s">' % (r.randrange(3), r.choice('ab'), r.randrange(3), r.choice('ab'))
    if r.random() < .3:
        s += r.choice(['<pre><code class="language-x">y</code></pre>', '<pre><code>a</code></pre>', '<table><tr><td><a href="/x">foo</a><img src="/i.png"></td></tr></table>', '<ul><li>a', '<table><tr><th>x', '<a href="/y">foo</a>', '<pre>x</pre>', '<img src="/j.png" alt="i.png">'])
    return [k, s, r.choice([0, 0, 1, 2, 3]), False, False]


def gen(r):
    last = one(r)
    hist = [one(r) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    if r.random() < .4:
        last[0:1] = [hist[-1][0]]
        last = [hist[-1][0], last[1] if (hist[-1][0] == 'creole2html') == (last[0] == 'creole2html') else hist[-1][1], hist[-1][2], last[3], last[4]]
    return dict(hist=hist, last=last)


def fixed():
    h = ['html2markdown', '<pre><code>a</code></pre>', 0, False, False]
    for a in [['creole2html', '<<toc depth=1>>\n= a\n== b', 1, True, False], ['creole2html', '<<toc>>\n= a', 2, True, False], ['creole2html', '= a\n<<bad>>', 1, True, False], h,
              ['html2rest', '<p><img src="/1.png" alt="a"> <img src="/2.png" alt="a"></p>', 0, False, False], ['html2rest', '<p><img src="/1.png" alt="a"></p><table><tr><td><a href="/x">foo</a></td><td><a href="/y">foo</a></td></tr></table>', 0, False, False],
              ['html2rest', '<ul><li><img src="/1.png"><x>a</x></li></ul>', 3, False, False], ['html2creole', '<ul><li><table><tr><td>a<x>b</x>', 3, False, False], ['html2markdown', '<ul><li><table><tr><td>a<x>b</x>', 3, False, False], ['html2textile', '<ul><li><table><tr><td>a<x>b</x>', 3, False, False],
              ['html2rest', '<td><a href="/x">foo</a><img src="/i.png"></td>', 0, False, False], ['html2creole', '<ul><li>a<li>b', 0, False, False], ['html2creole', '<pre>x</pre>', 0, False, False], ['html2markdown', '<table><td>a', 0, False, False], ['html2textile', '<x>a</x>', 2, False, False]]:
        for b in [['creole2html', '<<toc>>\n= c\n== d', a[2], True, False], ['creole2html', '= c\n== d', 1, True, False], ['creole2html', 'a\nb <<m>>', 1, True, False], ['html2rest', '<td><a href="/y">foo</a></td>', 0, False, False], ['html2rest', '<a href="/x">foo</a>', 0, False, False],
                  ['html2creole', '<li>x</li>', 0, False, False], ['html2creole', '<inlinedata type="pre" id="0" />', 0, False, False], ['html2textile', '<td>x</td><ul><li>y', 0, False, False], ['html2markdown', '<pre><code>a</code></pre><p>b', 0, False, False], ['html2rest', '<ol><li>x<img src="/i.png">', 0, False, False]]:
            yield dict(hist=[a], last=b)
            yield dict(hist=[b, a], last=b)


def nontrivial(case):
    return bool(case['hist'])


def do(c, tables):
    """one conversion -> (result or exception text)"""
    import creole
    from creole.shared import unknown_tags as u
    name, s, opt, flag, strict = c
    try:
        if name == 'creole2html':
            mt = tables[opt]
            return creole.creole2html(s, macros=mt, blog_line_breaks=flag, strict=strict, verbose=1)
        unknown = [None, u.escape_unknown_nodes, u.use_html_macro, u.raise_unknown_node][opt]
        return getattr(creole, name)(s, unknown_emit=unknown)
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def make_tables():
    d = mac.table('dict', 0, 0)
    o = mac.table('obj', 0, 0)
    return [None, d, o]


def state(t):
    return None if t is None else dict(t) if isinstance(t, dict) else dict(vars(type(t))) | dict(vars(t))


def in_child(calls):
    """-> (result of the last call, stdout, changed arguments) computed in a forked process"""
    import creole  # noqa: the state before any conversion is inherited
    import creole.shared.unknown_tags  # noqa
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = io.StringIO()
            tables = make_tables()
            before = [state(t) for t in tables]
            with contextlib.redirect_stdout(out):
                for c in calls:
                    res = do(c, tables)
            changed = [i for i, t in enumerate(tables) if state(t) != before[i]]
            data = pickle.dumps((res, out.getvalue(), changed))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def check(case):
    alone = in_child([case['last']])
    after = in_child(case['hist'] + [case['last']])
    if alone is None or after is None:
        return None  # died, e.g. recursion
    if alone[0] != after[0]:
        return f'{case["last"]!r} alone gives {alone[0]!r}, after the history {after[0]!r}'
    for res in (alone, after):
        if res[1]:
            return f'printed {res[1][:300]!r}'
        if res[2]:
            return f'the macro table passed was changed (form {res[2]})'
    return None
