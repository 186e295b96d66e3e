"""C05: the line ending convention does not matter"""
from oracle import gen_creole, mac

SHRINK = ('src',)
RULE = 'random creole sources, converted with LF, CRLF, CR and mixed line ends; non-trivial: the source has at least two lines'


def gen(r):
    case = mac.options(r)
    case['verbose'] = 1
    s = gen_creole.source(r).replace('\r', '')
    if '\n' not in s:
        s = s + '\n' + gen_creole.source(r).replace('\r', '')
    case['src'] = s
    case['mix'] = r.randint(0, 1 << 30)
    return case


def nontrivial(case):
    return '\n' in case['src'].strip()


def fixed():
    base = dict(form='dict', e=0, ret=0, blog=True, verbose=1, strict=False, mix=5)
    for s in ['a\nb', 'a\n\nb', '{{{\na\n\nb\n}}}\n', '* a\n* b\n', '|a|\n|b|\n', '= a\nb', '<<m>>\na\nb\n<</m>>\n', '\n\na\n\n\nb\n', 'a\\\\\nb', '{{{\n~}}}\n}}}', '<<bad>>\nx\n<</bad>>', '[[a\nb]]', '<<m>>a\nb<</m>>']:
        yield dict(base, src=s)
        yield dict(base, src=s, blog=False)
    for s in gen_creole.long():
        yield dict(base, src=s)


def check(case):
    s = case['src']
    if '\r' in s:
        return None
    try:
        ref = mac.convert(case)
    except Exception:
        return None
    import random
    rr = random.Random(case['mix'])
    mixed = ''
    for c in s:
        if c == '\n':
            # '\r' directly before '\n' would be one line end
            c = rr.choice(['\n', '\r\n', '\r']) if not mixed.endswith('\r') else rr.choice(['\r\n', '\r'])
        mixed += c
    for name, t in (('CRLF', s.replace('\n', '\r\n')), ('CR', s.replace('\n', '\r')), ('mixed', mixed)):
        try:
            got = mac.convert(dict(case, src=t))
        except Exception as e:
            return f'{name}: raised {e!r}'
        if got != ref:
            return f'{name}: {got!r} instead of {ref!r}'
    return None
