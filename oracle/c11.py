"""C11: rendered tables are rectangular and lose no cell"""
SHRINK = ('rows',)
RULE = 'random rows of header and data cells put into MarkupTable and rendered in all modes, and the same tables as html through the converters; non-trivial: at least two cells'
TEXTS = ['', 'a', 'foo bar', 'ü漢', ' x ', '= h', '=', '_. t', 'a-b', '+', '-', '=' * 7, 'x' * 30, '\\\\', '~', '  ', '*', '1', 'b\\\\c', '{{a}}', '\t', 'e\u0301', '\U0001f600', '_.', '===', ' = y']


PIECES = ['<p>%s</p>', '%s<br>', '<br/>%s', '<ul><li>%s</li><li>b</li></ul>', '<pre>%s\nc\n\nd</pre>', '<h2>%s</h2>', '<b>%s</b> ', '<div>%s</div>', '%s\n', '<hr>%s', '<xx>%s</xx>', '<ol><li>%s<ul><li>y</li></ul></li></ol>',
          '<code>%s</code>', '<a href="/u">%s</a>', '<p><br>%s</p>', '&#10;%s', '&#13;%s', '<blockquote>%s</blockquote>', '<i>\n%s\n</i>']
HTMLCELLS = ['a<br>' * 30, '<p>a</p>' * 30, '<pre>' + 'a\n' * 30 + '</pre>', '<ul>' + '<li>a</li>' * 30 + '</ul>', '&#10;', 'a&#10;b', '<br>', '<pre>\n</pre>', '<p>a</p><ul><li>b</li></ul>c']


def cell(r):
    return ''.join(r.choice(PIECES) % r.choice(['a', 'foo', 'x y', '', '1']) for _ in range(r.choice([0, 1, 1, 2, 3, 14])))


def gen(r):
    if r.random() < .3:
        return dict(rows=[[[r.choice(['th', 'td', 'td']), cell(r)] for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([1, 2, 3]))], head='', auto=True, notr=False, html=True)
    rows = []
    big = r.random()
    for _ in range(r.randint(0, 5) if big > .1 else r.randint(6, 24)):
        rows.append([[r.choice(['th', 'td', 'td']), r.choice(TEXTS) if r.random() < .6 else ''.join(r.choice('abc xyz=-') for _ in range(r.randint(0, 12)))] for _ in range(r.choice([0, 1, 2, 2, 3, 4]) if not .07 < big < .2 else r.randint(5, 24))])
    return dict(rows=rows, head=r.choice(['= ', '_. ', '', '=']), auto=r.random() < .6, notr=r.random() < .1)


def fixed():
    import itertools
    for shape in itertools.product(range(4), repeat=3):
        for kinds in (('td', 'td', 'td'), ('th', 'td', 'td'), ('td', 'th', 'td'), ('th', 'th', 'th')):
            rows = [[[k, f'{"x" * (i + 1)}{j}'] for j in range(n)] for i, (n, k) in enumerate(zip(shape, kinds))]
            for auto in (True, False):
                yield dict(rows=rows, head='= ', auto=auto, notr=False)
            yield dict(rows=rows, head='', auto=True, notr=False)
    for c in HTMLCELLS + [x % 'a' for x in PIECES] + [x % 'a' * 12 for x in PIECES]:
        for k in ('td', 'th'):
            yield dict(rows=[[[k, c], ['td', 'z']], [['td', 'y'], ['td', c]]], head='', auto=True, notr=False, html=True)
    yield dict(rows=[[['td', f'x{i}'], ['td', 'y' * (i % 40)]] for i in range(200)], head='', auto=True, notr=False)
    yield dict(rows=[[['td', f'x{i}'] for i in range(200)]] * 2, head='= ', auto=True, notr=False)
    yield dict(rows=[[['th', 'x ' * 300]], [['td', 'y']]], head='= ', auto=False, notr=False)


def nontrivial(case):
    return sum(len(r) for r in case['rows']) >= 2


def split(line):
    if not (line.startswith('|') and line.endswith('|') and len(line) >= 2):
        return None
    return line[1:-1].split('|')


def cells_ok(name, got, want):
    """got: cell texts of a line; want: texts expected, in order; extra empty cells at the end are allowed"""
    g = [c.strip() for c in got]
    w = [c.strip() for c in want]
    if g[:len(w)] != w or any(g[len(w):]):
        return f'{name}: cells {g!r} instead of {w!r}'
    return None


def texts(case, prefix):
    return [[(prefix + t if k == 'th' else t) for k, t in row] for row in case['rows']]


def build(case, **kw):
    from creole.shared.markup_table import MarkupTable
    t = MarkupTable(**kw)
    for i, row in enumerate(case['rows']):
        if not (i == 0 and case['notr'] and row):
            t.add_tr()
        for k, text in row:
            (t.add_th if k == 'th' else t.add_td)(text)
    return t


def grid(name, out, want, header, mode):
    lines = out.split('\n')
    if not want:
        return None if len(lines) <= 3 else f'{name}: {out!r} for a table without rows'
    rows = []
    if mode == 'rest':
        if len(lines) != 2 * len(want) + 1:
            return f'{name}: {len(lines)} lines for {len(want)} rows: {out!r}'
        width = max(map(len, lines))
        for i, ln in enumerate(lines):
            if len(ln) != len(lines[0]):
                return f'{name}: lines of different length: {out!r}'
            if i % 2 == 0:
                char = '=' if i == 2 and header and len(want) > 1 else '-'
                if not (ln.startswith('+') and ln.endswith('+')) or set(ln) - {'+', char}:
                    return f'{name}: bad separator line {ln!r} in {out!r}'
            else:
                rows.append(ln)
                sep = lines[i - 1]
                pos = [j for j, c in enumerate(sep) if c == '+']
                if any(ln[j] != '|' for j in pos):
                    return f'{name}: the bars of {ln!r} are not at the {sep!r}: {out!r}'
        del width
    else:
        rows = list(lines)
        if mode == 'markdown' and header and len(want) > 1:
            sep = rows.pop(1)
            s = split(sep)
            if s is None or any(set(c) - set(' -') for c in s):
                return f'{name}: bad separator line {sep!r} in {out!r}'
            if len(sep) != len(rows[0]) and all(c.strip() for c in want[0]) and min(map(len, split(rows[0]))) > 2:
                return f'{name}: separator line {sep!r} and row {rows[0]!r} differ in length'
        if len(rows) != len(want):
            return f'{name}: {len(rows)} row lines for {len(want)} rows: {out!r}'
    split_rows = [split(ln) for ln in rows]
    for ln, got, w in zip(rows, split_rows, want):
        if got is None:
            return f'{name}: line {ln!r} does not start and end with a bar: {out!r}'
        msg = cells_ok(name, got, w)
        if msg:
            return f'{msg} in {out!r}'
    if mode in ('rest', 'markdown', 'aligned'):
        ws = [tuple(map(len, got)) for got in split_rows]
        if len(set(ws)) > 1:
            return f'{name}: the cells of a column have different widths {ws}: {out!r}'
    return None


def lines_only(case):
    """cells with any html: every line is a row or a separator line, with the same number of cells"""
    import creole
    rows = case['rows']
    if not rows or not all(rows):
        return None
    src = '<table>' + ''.join('<tr>' + ''.join(f'<{k}>{t}</{k}>' for k, t in row) + '</tr>' for row in rows) + '</table>'
    for name in ('html2creole', 'html2textile', 'html2markdown', 'html2rest'):
        try:
            out = getattr(creole, name)(src)
        except Exception as e:
            return f'{name} raised {type(e).__name__}: {e} for {src!r}'
        lines = out.strip('\n').split('\n')
        if name == 'html2rest':
            if '' in lines:
                # definitions of links follow
                if any(x and not x.startswith('.. _') and not x.startswith('.. |') for x in lines[lines.index(''):]):
                    return f'{name}: {out!r} for {src!r}'
                lines = lines[:lines.index('')]
            if len(lines) != 2 * len(rows) + 1 or any(set(x) - set('+-=') or not x.startswith('+') for x in lines[::2]) or len({len(x) for x in lines}) > 1:
                return f'{name}: {out!r} for {src!r}'
            lines = lines[1::2]
        elif name == 'html2markdown' and len(lines) == len(rows) + 1:
            del lines[1]
        if len(lines) != len(rows):
            return f'{name}: {len(lines)} lines for {len(rows)} rows: {out!r} for {src!r}'
        if any(not (x.startswith('|') and x.endswith('|')) for x in lines):
            return f'{name}: a line does not start and end with a bar: {out!r} for {src!r}'
    return None


def check(case):
    if case.get('html'):
        return lines_only(case)
    rows = case['rows']
    header = any(k == 'th' for row in rows for k, _t in row)
    want_rows = rows
    if any('|' in t or '\n' in t for row in rows for _k, t in row):
        return None
    del want_rows
    t = build(case, head_prefix=case['head'], auto_width=case['auto'])
    try:
        msg = grid('get_table_markup', t.get_table_markup(), texts(case, case['head']), header, 'aligned' if case['auto'] else 'plain')
        t = build(case, head_prefix='', auto_width=True)
        msg = msg or grid('get_rest_table', t.get_rest_table(), texts(case, ''), header, 'rest')
        t = build(case, head_prefix='', auto_width=True)
        msg = msg or grid('get_markdown_table', t.get_markdown_table(), texts(case, ''), header, 'markdown')
        # rendering twice gives the same
        t = build(case, head_prefix='= ', auto_width=True)
        if msg is None and t.get_table_markup() != t.get_table_markup():
            msg = 'get_table_markup: the second rendering differs'
    except Exception as e:
        return f'raised {type(e).__name__}: {e}'
    return msg or converters(case, header)


def converters(case, header):
    import html
    import creole
    rows = case['rows']
    if not rows or not any(rows):
        return None
    if any(c in t for row in rows for _k, t in row for c in '\\\t') or any(t.strip() != t or '  ' in t for row in rows for _k, t in row):
        return None
    src = '<table>' + ''.join('<tr>' + ''.join(f'<{k}>{html.escape(t)}</{k}>' for k, t in row) + '</tr>' for row in rows) + '</table>'
    try:
        for name, prefix, mode in (('html2creole', '= ', 'aligned'), ('html2textile', '_. ', 'plain'), ('html2rest', '', 'rest'), ('html2markdown', '', 'markdown')):
            msg = grid(name, getattr(creole, name)(src), texts(case, prefix), header, mode)
            if msg:
                return f'{msg}; html {src!r}'
    except Exception as e:
        return f'raised {type(e).__name__}: {e} for {src!r}'
    return None
