"""C20: macro arguments reach the macro exactly as written"""
import re

SHRINK = ('words', 'text')
RULE = 'random argument words (quoted, unquoted, escaped, numbers, constants, malformed) and texts in inline, block and single macro tags; compared with an independent word splitter; non-trivial: at least one argument or a text'
KEYS = ['a', 'b', 'key', 'x1', 'ü', 'text', 'class', 'a-b', 'A', '-a', 'b-', '_c', 'a.b', 'node', 'args']
NAMES = ['mac', 'mac', 'Mac', 'MAC2', 'm_x', 'Toc', 'TOC', 'html', 'ü', '1a']
VALS = ['1', '-5', '007', '+3', '1_0', 'foo', 'True', 'False', 'None', 'true', '1.5', 'x=y', '', 'a/b', 'é', '"q"', '٣', '=', 'None1', '0', '12x', 'a:b', '#h', '*', '[x]', '|']


def word(r):
    k, v = r.choice(KEYS), r.choice(VALS)
    q = r.random()
    if q < .35:
        return f'{k}={v}'
    if q < .6:
        return f'{k}="{v if chr(34) not in v else "q"}{r.choice(["", "", " z", "  ", chr(39)])}"'
    if q < .75:
        return f"{k}='{v}{r.choice(['', ' z', ' '])}'"
    if q < .8:
        return f'{k}={v}"a b"{v if chr(34) not in v else ""}'
    if q < .84:
        return f'{k}=x\\ y'
    if q < .87:
        return f"{k}=\"'{r.choice(['5', 'True', 'x'])}'\""
    if q < .92:
        return r.choice([k, '"', "'", f'{k}="x', f'"{k}"=1', f'{k}', '=1', f'"{k}=1"', f'{k}\\=1', '#', '\\'])
    return f'{k}={v}'


TEXTS = ['', 'x', ' t ', 'a b', '<b>', '**b**', '\n', 'line\nline2', ' \n x\n ', '&', '"', '{{{c}}}', '[[l]]', '~', 'ü', '<<', '>>', '\t', 'x' * 50, '= h', '|', '* a\n* b', '\u00a0y', 'a\n\nb', 'a\n\n\n b', 'a  b', '\n\n', 'x\n']


def gen(r):
    return dict(kind=r.choice(['tag', 'tag', 'inline', 'block', 'cell', 'item', 'inl2', 'head', 'bold']), name=r.choice(NAMES), how=r.choice(['', '', '', 'falsy', 'KeyError', 'TypeError', 'ValueError']), words=[word(r) for _ in range(r.choice([0, 1, 1, 2, 3]))], text=r.choice(TEXTS), sep=r.choice([' ', '  ']), slash=r.choice(['', '', ' /']), obj=r.random() < .3)


def fixed():
    for kind in ('tag', 'inline', 'block', 'cell', 'head', 'bold'):
        for name in NAMES:
            yield dict(kind=kind, name=name, words=['a=1'], text='T', sep=' ', slash='', obj=False)
        for how in ('falsy', 'KeyError', 'TypeError', 'ValueError', 'AttributeError'):
            yield dict(kind=kind, how=how, words=['a=1'], text='T', sep=' ', slash='', obj=False)
            yield dict(kind=kind, how=how, words=[], text='', sep=' ', slash='', obj=False)
        for k in KEYS:
            yield dict(kind=kind, words=[k + '=v'], text='T', sep=' ', slash='', obj=False)
        yield dict(kind=kind, words=['a=1', 'b=x/'], text='T', sep=' ', slash='', obj=False)
        yield dict(kind=kind, words=['a=/'], text='T', sep=' ', slash='', obj=False)
    for kind in ('tag', 'inline', 'block', 'cell', 'item'):
        for t in TEXTS:
            yield dict(kind=kind, words=['a=1'], text=t, sep=' ', slash='', obj=False)
        for v in VALS:
            yield dict(kind=kind, words=[f'a={v}', 'b="x y"'], text='T', sep=' ', slash='', obj=False)
            yield dict(kind=kind, words=[f"a='{v}'"], text='T', sep=' ', slash='', obj=True)
        for w in ['a', '"', 'a="x', "'", '=1', '"a b"=c', 'a=b=c', 'a==', 'a= b=1', 'text=5', 'a=1 a=2']:
            yield dict(kind=kind, words=[w], text='T', sep=' ', slash='', obj=False)
    yield dict(kind='tag', words=[f'a{i}={i}' for i in range(60)], text='T', sep=' ', slash='', obj=False)
    yield dict(kind='block', words=['a="' + 'x y ' * 200 + '"'], text='w1 w2\n' * 200 + 'end', sep=' ', slash='', obj=False)


ERRORS = {e.__name__: e for e in (KeyError, TypeError, ValueError, AttributeError)}


class Falsy:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def __len__(self):
        return 0


def nontrivial(case):
    return bool(case['words']) or bool(case['text'].strip())


def split_words(s):
    """POSIX word splitting as documented for shlex.split (without comments); None: unclosed quote"""
    words, cur, i, n = [], None, 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n':
            if cur is not None:
                words.append(cur)
                cur = None
            i += 1
        elif c == "'":
            j = s.find("'", i + 1)
            if j < 0:
                return None
            cur = (cur or '') + s[i + 1:j]
            i = j + 1
        elif c == '"':
            cur = cur or ''
            i += 1
            while True:
                if i >= n:
                    return None
                if s[i] == '"':
                    i += 1
                    break
                if s[i] == '\\':
                    if i + 1 >= n:
                        return None
                    if s[i + 1] in '"\\':
                        cur += s[i + 1]
                    else:
                        cur += s[i:i + 2]
                    i += 2
                else:
                    cur += s[i]
                    i += 1
        elif c == '\\':
            if i + 1 >= n:
                return None
            cur = (cur or '') + s[i + 1]
            i += 2
        else:
            cur = (cur or '') + c
            i += 1
    if cur is not None:
        words.append(cur)
    return words


def value(v):
    const = {'True': True, 'False': False, 'None': None}
    if v in const:
        return const[v]
    try:
        return int(v.strip('\'"'))
    except ValueError:
        return v


def check(case):
    from creole import creole2html
    kind = case['kind']
    args = case['sep'].join(case['words'])
    text = case['text']
    if '>>' in args or '<<' in args or kind in ('tag', 'cell', 'head', 'bold') and args.strip().endswith('/') and kind == 'tag' or '<<' in text or '\x00' in text:
        return None
    name = case.get('name', 'mac')
    head = name + (' ' + args if args else '')
    if kind == 'tag':
        src = f'X <<{head}{case["slash"]}>> Y'
        want_text = None
    else:
        if kind in ('cell', 'item', 'inl2', 'head', 'bold') and '\n' in text or kind == 'cell' and ('>>' in text):
            return None
        want_text = text.strip()
        if '\n' in text and kind == 'inline':
            kind = 'block'
        if kind == 'bold' and '**' in text + args or text.endswith('<') or '>>' in text and not kind == 'block':
            return None
        end = f'<</{name}>>'
        src = {'inline': f'X <<{head}>>{text}{end} Y', 'block': f'<<{head}>>\n{text}\n{end}\nY', 'cell': f'| a | X <<{head}>>{text}{end} Y |', 'head': f'|= X <<{head}>>{text}{end} Y |',
               'item': f'* X <<{head}>>{text}{end} Y', 'bold': f'a **b <<{head}>>{text}{end} c** d', 'inl2': f'X <<{head}>>{text}{end} <<{name} q=1>> Y'}[kind]
    if kind in ('cell',) and '|' in args:
        pass
    calls = []

    def mac(*a, **kw):
        calls.append((a, dict(kw)))
        kw.clear()
        if how in ERRORS and len(calls) == 1:
            raise ERRORS[how]('text')
        return 'RESULT'
    how = case.get('how', '')
    if how == 'falsy':
        mac = Falsy(mac)
    macros = {name: mac}
    if case['obj']:
        class M:
            pass
        m = M()
        setattr(m, name, mac)
        macros = m
    try:
        out = creole2html(src, macros=macros, stderr=None, verbose=1)
    except Exception as e:
        return f'raised {type(e).__name__}: {e}'
    words = split_words(args.strip())
    malformed = words is None or any('=' not in w for w in words)
    if kind == 'inl2':
        if not calls or calls[-1] != ((), dict(q=1, text=None)):
            return f'the second macro got {calls[-1:]!r}'
        calls.pop()
    if malformed:
        if calls:
            return f'the macro is called with {calls!r} although the arguments {args!r} are malformed'
        if '[Error: Wrong macro arguments' not in out:
            return f'malformed arguments {args!r} are not reported: {out!r}'
        return None
    want = {}
    for w in words:
        k, _e, v = w.partition('=')
        want[k] = value(v)
    want['text'] = want_text
    if calls != [((), want)]:
        return f'the macro was called with {calls!r} instead of {want!r}'
    if any(type(calls[0][1][k]) is not type(want[k]) for k in want):
        return f'the macro was called with {calls!r} instead of {want!r}'
    if how in ERRORS:
        return None if f"[Error: Macro '{name}' error: " in out else f'the error is not reported: {out!r}'
    if out.count('RESULT') != 1 + (kind == 'inl2'):
        return f'the result of the macro is not inserted once: {out!r}'
    return None
