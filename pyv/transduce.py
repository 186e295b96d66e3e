"""Sequential transducers for str.replace and simple re.sub: decides whether two chains of rewrites of one string are
the same function on a language.  A character that no rewrite mentions stands for all such characters."""
import re
try:
    import re._parser as sp
except ImportError:
    import sre_parse as sp

from .values import Unsupported

OTHER = '\ue123'


class Rewrite:
    """one pass that replaces the leftmost matches of a pattern whose matches have 1..width characters"""

    def __init__(self, pattern, flags, repl):
        self.pat = re.compile(pattern, flags)
        tree = sp.parse(pattern, flags)
        lo, hi = tree.getwidth()
        if lo < 1 or hi > 4:
            raise Unsupported('width of the pattern')
        if re.search(r'\\[ABbZ]|[\^$]|\(\?', pattern):
            raise Unsupported('anchors')
        self.width = hi
        self.repl = repl
        self.chars = {chr(v) for op, v in walk(tree) if op is sp.LITERAL}

    start = ''

    def step(self, w, c):
        w += c
        if len(w) <= self.width:
            return w, ''
        m = self.pat.match(w)
        if m:
            return w[m.end():], m.expand(self.repl)
        return w[1:], w[0]

    def flush(self, w):
        return self.pat.sub(self.repl, w)


def walk(tree):
    for op, av in tree:
        if op in (sp.MAX_REPEAT, sp.MIN_REPEAT):
            yield from walk(av[2])
        elif op is sp.BRANCH:
            for t in av[1]:
                yield from walk(t)
        elif op is sp.SUBPATTERN:
            yield from walk(av[3])
        elif op is sp.IN:
            for o, v in av:
                if o is not sp.LITERAL:
                    raise Unsupported('set of a pattern')
                yield o, v
        elif op is sp.LITERAL:
            yield op, av
        else:
            raise Unsupported(f'pattern {op}')


def replace(old, new):
    return Rewrite(re.escape(old), 0, new.replace('\\', r'\\'))


class Hom:
    """letter by letter"""

    def __init__(self, table):
        self.table = table
        self.chars = set(table)
    start = None

    def step(self, s, c):
        return None, self.table.get(c, c)

    def flush(self, s):
        return ''


def run(chain, states, text, end=False):
    out = list(states)
    for i, t in enumerate(chain):
        res = ''
        s = out[i]
        for c in text:
            s, o = t.step(s, c)
            res += o
        if end:
            res += t.flush(s)
            s = t.start
        out[i] = s
        text = res
    return tuple(out), text


def equal(a, b, alphabet, cap=40):
    """a, b: chains of transducers.  -> '' when they agree on all words over `alphabet`, else a word on which they differ"""
    start = (tuple(t.start for t in a), tuple(t.start for t in b), '', '')
    seen = {start: ''}
    todo = [start]
    while todo:
        st = todo.pop(0)
        sa, sb, da, db = st
        w = seen[st]
        ea, eb = run(a, sa, '', True)[1], run(b, sb, '', True)[1]
        if da + ea != db + eb:
            return w or None
        for c in alphabet:
            na, oa = run(a, sa, c)
            nb, ob = run(b, sb, c)
            xa, xb = da + oa, db + ob
            n = 0
            while n < len(xa) and n < len(xb) and xa[n] == xb[n]:
                n += 1
            xa, xb = xa[n:], xb[n:]
            if xa and xb:
                return w + c
            if len(xa) > cap or len(xb) > cap:
                raise Unsupported('unbounded delay')
            k = (na, nb, xa, xb)
            if k not in seen:
                if len(seen) > 20000:
                    raise Unsupported('too many states')
                seen[k] = w + c
                todo.append(k)
    return ''
