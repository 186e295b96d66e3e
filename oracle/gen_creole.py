"""random creole sources: structured documents, splices of them, and noise"""
WORDS = ('foo bar Alpha beta gamma 12 x3 über ß 漢字 naïve T-Rex a.b e=mc2 it\'s "quoted" \'single\' <b> </b> <i>x</i> & &amp; &lt; '
         '&quot; <script> a<b a>b c&d <zq7>t</zq7> " ~ ! ~x ~* ~~ ^ _ : http ftp: %s {0} \\ \\n 100% #1 * // ** -- __ ## ,, ^^ = | [ ] { } '
         '~http://x.y/z http://a.b/c?d=e&f=g https://x.y mailto:x@y.z wtf://s/p file://x\u00a0y \u2028 \u0085 \x0b \x1c \t .').split(' ')
NASTY = ['"', "'", '<', '>', '&', '~', '\\\\', '\\', '|', '=', '*', '#', '/', '{', '}', '[', ']', '-', '_', '^', ',', ':', ' ', '\n',
         '[[', ']]', '{{', '}}', '{{{', '}}}', '<<', '>>', '<</', '/>>', '**', '//', '##', '__', '^^', ',,', '--', '~~', '----', '\n\n',
         '\n* ', '\n** ', '\n# ', '\n## ', '\n= ', '\n|', '\n{{{\n', '\n}}}\n', 'a', 'b', 'ä', '\t', '\u00a0', '\u2028', 'x', '1', '://', 'http://',
         '<<toc>>', '<<m>>', '<</m>>', '<<m a=1>>', '&lt;', '&quot;', '\x00', '%s', '%(c)s', '{data}', '\U0001f600', '\r', '\x85', '\x1f']
PAIRS = ['**', '//', '##', '__', '^^', ',,', '--', '~~']


def word(r):
    if r.random() < .6:
        return r.choice(WORDS)
    return ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789') for _ in range(r.randint(1, 6)))


def words(r, lo=1, hi=4):
    return ' '.join(word(r) for _ in range(r.randint(lo, hi)))


def target(r):
    return r.choice(['http://x.y/z', '/a/b.png', 'Page Name', 'a"b', "x'y", 'a&b', '<t>', 'a.png', 'img src.jpg', 'http://u.v/?q=1&r="2"',
                     '#anchor', 'x|y', 'javascript:alert(1)', 'data:image/png;base64,xx', '漢', words(r, 1, 2)])


def macro(r, inline=True):
    name = r.choice(['m', 'm', 'bad', 'none', 'num', 'unknown', 'toc', 'text', 'M2', 'html'])
    args = r.choice(['', '', ' a=1', ' a="b c" d=\'e\'', ' a', ' a="b', ' depth=2', ' depth=x', ' text=1', ' self=1', ' 1=2', ' ä=ö', ' =x', ' a=b=c', ' a=True', ' a=None', ' a="<x>"', ' "', ' \\', ' x=&lt;', ' /'])
    sp = r.choice(['', '', ' '])
    if r.random() < .45:
        return f'<<{name}{args}{r.choice(["", " ", " /", "/"])}>>'
    body = inlines(r, 2) if inline or r.random() < .3 else '\n' + document(r, 2) + '\n'
    return f'<<{sp}{name}{args}{sp}>>{body}<</{sp}{r.choice([name, name, name, "x"])}{sp}>>'


def inline(r, d, macros=True):
    k = r.random()
    if d <= 0 or k < .4:
        return words(r, 1, 3)
    if k < .6:
        p = r.choice(PAIRS)
        return p + inlines(r, d - 1, macros) + (p if r.random() < .93 else '')
    if k < .7:
        t = target(r)
        if r.random() < .5:
            return f'[[{t}]]'
        return f'[[{t}{r.choice(["|", " | ", "|"])}{inlines(r, d - 1, False) if r.random() < .7 else image(r)}]]'
    if k < .77:
        return image(r)
    if k < .83:
        return '{{{' + r.choice(['', ' ']) + words(r) + r.choice(['', ' ', '|', '}']) + '}}}'
    if k < .87:
        return '\\\\'
    if k < .91:
        return '~' + r.choice(NASTY)
    if k < .97 and macros:
        return macro(r)
    return r.choice(NASTY) + r.choice(NASTY)


def image(r):
    t = target(r)
    k = r.random()
    if k < .3:
        return '{{' + t + '}}'
    if k < .65:
        return '{{' + t + '|' + words(r, 1, 2) + '}}'
    return '{{' + t + '|' + r.choice(['', words(r, 1, 2), '"']) + '|' + r.choice(['10x20', '1x', 'x', '10', ' 5 x 6 ', 'axb', '1x2x3', '٣x٤', '-1x2']) + '}}'


def inlines(r, d, macros=True):
    return r.choice([' ', '', ' ', '\n' if d > 2 else ' ']).join(inline(r, d, macros) for _ in range(r.randint(1, 3)))


def lst(r, macros):
    out = []
    level = 1
    for i in range(r.randint(1, 7)):
        level = 1 if i == 0 else max(1, min(5, level + r.choice([-2, -1, 0, 0, 1, 1, 2])))
        if r.random() < .85:
            b = (r.choice('*#') * level)
        else:
            b = ''.join(r.choice('*#') for _ in range(level))
        t = inlines(r, 2, macros).replace('\n', ' ')
        out.append(r.choice(['', '', ' ', '\t']) + b + r.choice([' ', '', '  ']) + t)
    return '\n'.join(out)


def table(r, macros):
    rows = []
    for _ in range(r.randint(1, 4)):
        row = ''
        for _ in range(r.randint(1, 4)):
            c = r.choice(['', inlines(r, 2, macros).replace('\n', ' '), words(r)])
            row += '|' + r.choice(['=', '= ', '', '', ' ']) + c + r.choice(['', ' '])
        rows.append(row + r.choice(['|', '|', '', '| ']))
    return '\n'.join(rows)


def pre(r):
    lines = []
    for _ in range(r.randint(0, 4)):
        lines.append(r.choice([words(r), '', '  ' + words(r), '~}}}', ' ~}}}', ' }}}', '** x', '<<toc>>', '{{{', '#!python', '#!', '~~}}}', words(r) + '  ']))
    return '{{{' + r.choice(['', ' ', '\n']) + '\n' + '\n'.join(lines) + '\n}}}'


def block(r, d=3, macros=True):
    k = r.random()
    if k < .3:
        return '\n'.join(inlines(r, d, macros) for _ in range(r.randint(1, 3)))
    if k < .45:
        n = r.randint(1, 7)
        return '=' * n + r.choice([' ', '']) + r.choice([words(r), words(r), inlines(r, 2, macros).replace('\n', ' '), '"q"', '<<toc>>', '']) + r.choice(['', ' ' + '=' * n, '='])
    if k < .6:
        return lst(r, macros)
    if k < .72:
        return table(r, macros)
    if k < .8:
        return pre(r)
    if k < .85:
        return r.choice(['----', ' ----  ', '-----'])
    if k < .93 and macros:
        return macro(r, r.random() < .4)
    return words(r)


def document(r, n=4, macros=True):
    sep = ['\n\n', '\n\n', '\n', '\n\n\n', '\n \n']
    return ''.join(block(r, 3, macros) + r.choice(sep) for _ in range(r.randint(1, n))).rstrip('\n') + r.choice(['', '', '\n'])


def mutate(r, s):
    for _ in range(r.randint(1, 4)):
        i = r.randint(0, len(s))
        k = r.random()
        if k < .5:
            s = s[:i] + r.choice(NASTY) + s[i:]
        elif k < .75:
            s = s[:i] + s[i + r.randint(1, 4):]
        else:
            j = r.randint(0, len(s))
            s = s[:i] + s[j:j + r.randint(1, 12)] + s[i:]
    return s


def noise(r):
    return ''.join(r.choice(NASTY) for _ in range(r.randint(1, 14)))


def source(r, macros=True):
    k = r.random()
    if k < .55:
        s = document(r, 4, macros)
    elif k < .8:
        s = mutate(r, document(r, 3, macros))
    else:
        s = noise(r)
    if r.random() < .05:
        s = s.replace('\n', r.choice(['\r\n', '\r']))
    return s


def long():
    """long documents: nothing is limited to a number of elements, lines or characters"""
    w = [f'w{i}' for i in range(1200)]
    yield ' '.join(w)
    yield '\n'.join(w[:600])
    yield '\n\n'.join(w[:600])
    yield '\n'.join(f'* {x}' for x in w[:400])
    yield "\n".join(f"{'*' * (i % 7 + 1)} {x}" for i, x in enumerate(w[:400]))
    yield '\n'.join(f'{"=" * (i % 6 + 1)} {x}' for i, x in enumerate(w[:400]))
    yield '\n'.join(f'|={x}|{x}b|' for x in w[:300])
    yield '|' + '|'.join(w[:400]) + '|'
    yield '{{{\n' + '\n'.join(w) + '\n}}}'
    yield '{{{' + ' '.join(w) + '}}}'
    yield ' '.join(f'{{{{{{{x}}}}}}}' for x in w[:300])
    yield ' '.join(f'[[/{x}|t{x}]] {{{{i{x}|a{x}}}}}' for x in w[:200])
    yield ' '.join(f'**{x}** //b{x}// http://a/{x} ~*' for x in w[:200])
    yield '= ' + ' '.join(w)
    yield '* ' + ' '.join(w)
    yield '|' + ' '.join(w) + '|'
    yield '[[' + ''.join(w) + '|' + ' '.join(w) + ']]'
    yield '{{' + ''.join(w) + '|' + ' '.join(w) + '}}'
    yield '<&">' * 400
    yield '[[<&">' + '"' * 300 + ']]'
