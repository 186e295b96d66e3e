"""Regular languages over Unicode code points, as minimal complete DFAs.

A DFA state's transitions are a sorted list of (lo, hi, target) covering
0..MAX.  All operations are exact; Lang objects are canonical (equal
languages <=> equal .key), so inclusion etc. are decision procedures.
"""
import functools
import re
from re import _constants as sc, _parser as sp

MAX = 0x10FFFF
FULL = ((0, MAX),)


# ---------------------------------------------------------------- char sets
def cs_norm(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def cs_neg(cs):
    out, p = [], 0
    for lo, hi in cs:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)


def cs_and(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def cs_or(a, b):
    return cs_norm(a + b)


def cs_chars(s):
    return cs_norm([(ord(c), ord(c)) for c in s])


@functools.lru_cache(None)
def category(name):
    tests = {
        'space': str.isspace,
        'digit': str.isdecimal,
        'word': lambda c: c.isalnum() or c == '_',
    }
    t = tests[name]
    out, lo = [], None
    for i in range(MAX + 1):
        if t(chr(i)):
            if lo is None:
                lo = i
        elif lo is not None:
            out.append((lo, i - 1))
            lo = None
    if lo is not None:
        out.append((lo, MAX))
    return tuple(out)


# ---------------------------------------------------------------- NFA
class NFA:
    def __init__(self):
        self.eps = []
        self.edges = []

    def state(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1


def _closure(nfa, states):
    seen = set(states)
    todo = list(states)
    while todo:
        s = todo.pop()
        for t in nfa.eps[s]:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return frozenset(seen)


def _sweep(items):
    """items: (lo, hi, target) overlapping -> list of (lo, hi, frozenset targets) covering FULL."""
    pts = {0, MAX + 1}
    for lo, hi, _ in items:
        pts.add(lo)
        pts.add(hi + 1)
    pts = sorted(pts)
    starts = {}
    ends = {}
    for lo, hi, t in items:
        starts.setdefault(lo, []).append(t)
        ends.setdefault(hi + 1, []).append(t)
    cur = {}
    out = []
    for a, b in zip(pts, pts[1:]):
        for t in ends.get(a, ()):
            cur[t] -= 1
            if not cur[t]:
                del cur[t]
        for t in starts.get(a, ()):
            cur[t] = cur.get(t, 0) + 1
        k = frozenset(cur)
        if out and out[-1][2] == k and out[-1][1] == a - 1:
            out[-1] = (out[-1][0], b - 1, k)
        else:
            out.append((a, b - 1, k))
    return out


def determinize(nfa, start, accepts):
    accepts = frozenset(accepts)
    s0 = _closure(nfa, [start])
    index = {s0: 0}
    trans, acc, todo = [], set(), [s0]
    i = 0
    cache = {}
    while i < len(todo):
        S = todo[i]
        if S & accepts:
            acc.add(i)
        items = [(lo, hi, t) for s in S for (cs, t) in nfa.edges[s] for lo, hi in cs]
        row = []
        for lo, hi, ts in _sweep(items):
            T = cache.get(ts)
            if T is None:
                T = cache[ts] = _closure(nfa, ts)
            j = index.get(T)
            if j is None:
                j = index[T] = len(todo)
                todo.append(T)
            if row and row[-1][2] == j:
                row[-1] = (row[-1][0], hi, j)
            else:
                row.append((lo, hi, j))
        trans.append(row)
        i += 1
    return Lang.make(trans, acc)


class Lang:
    __slots__ = ('trans', 'acc', 'key', '_dead', '_hash')

    def __init__(self, trans, acc):
        self.trans = trans
        self.acc = acc
        self.key = (tuple(tuple(r) for r in trans), frozenset(acc))
        self._hash = hash(self.key)
        self._dead = None

    def __eq__(self, o):
        return isinstance(o, Lang) and self._hash == o._hash and self.key == o.key

    def __hash__(self):
        return self._hash

    def __repr__(self):
        w = self.word()
        return f'<Lang {len(self.trans)} states e.g. {w!r}>'

    @staticmethod
    def make(trans, acc):
        """minimise (Moore) and canonicalise."""
        n = len(trans)
        cls = [1 if i in acc else 0 for i in range(n)]
        ncls = len(set(cls))
        while True:
            sig = {}
            new = []
            for i in range(n):
                row = []
                for lo, hi, t in trans[i]:
                    c = cls[t]
                    if row and row[-1][2] == c:
                        row[-1] = (row[-1][0], hi, c)
                    else:
                        row.append((lo, hi, c))
                k = (cls[i], tuple(row))
                new.append(sig.setdefault(k, len(sig)))
            cls = new
            if len(sig) == ncls:
                break
            ncls = len(sig)
        rep = {}
        for i in range(n):
            rep.setdefault(cls[i], i)
        order = {cls[0]: 0}
        queue = [cls[0]]
        out = []
        i = 0
        while i < len(queue):
            row = []
            for lo, hi, t in trans[rep[queue[i]]]:
                c = cls[t]
                if c not in order:
                    order[c] = len(queue)
                    queue.append(c)
                j = order[c]
                if row and row[-1][2] == j:
                    row[-1] = (row[-1][0], hi, j)
                else:
                    row.append((lo, hi, j))
            out.append(row)
            i += 1
        nacc = {order[cls[s]] for s in acc if cls[s] in order}
        return Lang(out, nacc)

    # -- queries
    def live(self):
        """states from which acceptance is reachable"""
        if self._dead is None:
            rev = {}
            for i, r in enumerate(self.trans):
                for _, _, t in r:
                    rev.setdefault(t, set()).add(i)
            live = set(self.acc)
            todo = list(live)
            while todo:
                s = todo.pop()
                for p in rev.get(s, ()):
                    if p not in live:
                        live.add(p)
                        todo.append(p)
            self._dead = live
        return self._dead

    def empty(self):
        return not self.acc

    def is_all(self):
        return len(self.trans) == 1 and 0 in self.acc

    def step(self, s, ch):
        c = ord(ch)
        row = self.trans[s]
        lo, hi = 0, len(row) - 1
        while lo <= hi:
            m = (lo + hi) // 2
            if row[m][1] < c:
                lo = m + 1
            elif row[m][0] > c:
                hi = m - 1
            else:
                return row[m][2]
        raise AssertionError

    def run(self, w, s=0):
        for ch in w:
            s = self.step(s, ch)
        return s

    def has(self, w):
        return self.run(w) in self.acc

    def word(self, prefer='abcxyz019 '):
        """a shortest word, or None"""
        if self.empty():
            return None
        if 0 in self.acc:
            return ''
        seen = {0}
        layer = [(0, '')]
        pref = [ord(c) for c in prefer]
        while layer:
            nxt = []
            for s, w in layer:
                for lo, hi, t in self.trans[s]:
                    if t in seen or t not in self.live():
                        continue
                    c = next((p for p in pref if lo <= p <= hi), None)
                    if c is None:
                        c = next((p for p in range(max(lo, 33), min(hi, 126) + 1)), None)
                    if c is None:
                        c = next((p for p in range(lo, hi + 1) if not 0xD800 <= p <= 0xDFFF), lo)
                    seen.add(t)
                    w2 = w + chr(c)
                    if t in self.acc:
                        return w2
                    nxt.append((t, w2))
            layer = nxt
        return None

    def words(self, n=8, maxlen=12):
        """some words, short ones first, distinct transition choices."""
        out = []
        layer = [(0, '')]
        live = self.live()
        for _ in range(maxlen + 1):
            nxt = []
            for s, w in layer:
                if s in self.acc:
                    out.append(w)
                    if len(out) >= n:
                        return out
                for lo, hi, t in self.trans[s]:
                    if t in live:
                        for c in {lo if lo > 32 else max(lo, min(hi, 97)), min(hi, max(lo, 97)), min(hi, max(lo, 50))}:
                            if 0xD800 <= c <= 0xDFFF:
                                continue
                            nxt.append((t, w + chr(c)))
            layer = nxt[:200]
        return out

    def finite_words(self, limit=200):
        """all words if the language is finite and small, else None"""
        if self.empty():
            return []
        live = self.live()
        out = []
        def rec(s, w, path):
            if len(out) > limit:
                return False
            if s in self.acc:
                out.append(w)
            for lo, hi, t in self.trans[s]:
                if t in live:
                    if t in path or hi - lo > 64:
                        return False
                    for c in range(lo, hi + 1):
                        if not rec(t, w + chr(c), path | {t}):
                            return False
            return True
        if 0 not in live:
            return []
        if not rec(0, '', {0}):
            return None
        return out if len(out) <= limit else None

    # -- boolean operations
    def _product(self, o, f):
        key = (self, o, f)
        r = _prod_cache.get(key)
        if r is not None:
            return r
        index = {(0, 0): 0}
        todo = [(0, 0)]
        trans, acc = [], set()
        i = 0
        while i < len(todo):
            a, b = todo[i]
            if f((a in self.acc), (b in o.acc)):
                acc.add(i)
            row = []
            ra, rb = self.trans[a], o.trans[b]
            x = y = 0
            p = 0
            while p <= MAX:
                hi = min(ra[x][1], rb[y][1])
                k = (ra[x][2], rb[y][2])
                j = index.get(k)
                if j is None:
                    j = index[k] = len(todo)
                    todo.append(k)
                if row and row[-1][2] == j:
                    row[-1] = (row[-1][0], hi, j)
                else:
                    row.append((p, hi, j))
                p = hi + 1
                if ra[x][1] == hi:
                    x += 1
                if rb[y][1] == hi:
                    y += 1
            trans.append(row)
            i += 1
        r = Lang.make(trans, acc)
        _prod_cache[key] = r
        return r

    def __and__(self, o):
        if self.is_all():
            return o
        if o.is_all():
            return self
        return self._product(o, _f_and)

    def __or__(self, o):
        return self._product(o, _f_or)

    def __sub__(self, o):
        return self._product(o, _f_sub)

    def __invert__(self):
        return Lang.make([list(r) for r in self.trans], set(range(len(self.trans))) - set(self.acc))

    def __le__(self, o):
        return o.is_all() or (self - o).empty()

    # -- regular operations (through NFAs)
    def _into(self, nfa):
        base = [nfa.state() for _ in self.trans]
        live = self.live()
        for i, r in enumerate(self.trans):
            for lo, hi, t in r:
                if t in live:
                    nfa.edges[base[i]].append((((lo, hi),), base[t]))
        return base[0], [base[a] for a in self.acc]

    def __add__(self, o):
        if self.empty() or o.empty():
            return EMPTY
        if self == EPS:
            return o
        if o == EPS:
            return self
        key = ('+', self, o)
        r = _prod_cache.get(key)
        if r is None:
            n = NFA()
            s1, a1 = self._into(n)
            s2, a2 = o._into(n)
            for a in a1:
                n.eps[a].append(s2)
            r = _prod_cache[key] = determinize(n, s1, a2)
        return r

    def star(self):
        key = ('*', self)
        r = _prod_cache.get(key)
        if r is None:
            n = NFA()
            s, a = self._into(n)
            s0 = n.state()
            n.eps[s0].append(s)
            for x in a:
                n.eps[x].append(s0)
            r = _prod_cache[key] = determinize(n, s0, [s0])
        return r

    def reverse(self):
        n = NFA()
        base = [n.state() for _ in self.trans]
        live = self.live()
        for i, r in enumerate(self.trans):
            for lo, hi, t in r:
                if t in live:
                    n.edges[base[t]].append((((lo, hi),), base[i]))
        s = n.state()
        for a in self.acc:
            n.eps[s].append(base[a])
        return determinize(n, s, [base[0]])

    def subst(self, ch, repl):
        """image under replacing every char ch by the string repl (exact homomorphism)."""
        n = NFA()
        base = [n.state() for _ in self.trans]
        live = self.live()
        c = ord(ch)
        for i, r in enumerate(self.trans):
            for lo, hi, t in r:
                if t not in live:
                    continue
                rest = cs_and(((lo, hi),), cs_neg(((c, c),)))
                if rest:
                    n.edges[base[i]].append((rest, base[t]))
                if lo <= c <= hi:
                    s = base[i]
                    if not repl:
                        n.eps[s].append(base[t])
                    else:
                        for k, x in enumerate(repl):
                            nx = base[t] if k == len(repl) - 1 else n.state()
                            n.edges[s].append((((ord(x), ord(x)),), nx))
                            s = nx
        return determinize(n, base[0], [base[a] for a in self.acc])

    def map_cs(self, cs, to_cs):
        """image when chars in cs may become any char of to_cs (over-approximation of e.g. lower())."""
        n = NFA()
        base = [n.state() for _ in self.trans]
        for i, r in enumerate(self.trans):
            for lo, hi, t in r:
                x = cs_and(((lo, hi),), cs)
                n.edges[base[i]].append((((lo, hi),), base[t]))
                if x:
                    n.edges[base[i]].append((to_cs, base[t]))
        return determinize(n, base[0], [base[a] for a in self.acc])

    def ascii_case(self, lower):
        """the image under lower() / upper(), for languages of ASCII texts"""
        n = NFA()
        base = [n.state() for _ in self.trans]
        frm, d = ((65, 90), 32) if lower else ((97, 122), -32)
        for i, r in enumerate(self.trans):
            for lo, hi, t in r:
                x = cs_and(((lo, hi),), (frm,))
                keep = cs_and(((lo, hi),), cs_neg(cs_norm([frm])))
                if keep:
                    n.edges[base[i]].append((tuple(keep), base[t]))
                if x:
                    n.edges[base[i]].append((tuple((a + d, b + d) for a, b in x), base[t]))
        return determinize(n, base[0], [base[a] for a in self.acc])

    def lquot(self, L):
        """{ w | exists u in L: u w in self }"""
        seen = {(0, 0)}
        todo = [(0, 0)]
        starts = set()
        live = L.live()
        while todo:
            a, b = todo.pop()
            if b in L.acc:
                starts.add(a)
            for (la, ha, ta) in self.trans[a]:
                for (lb, hb, tb) in L.trans[b]:
                    if tb in live and max(la, lb) <= min(ha, hb) and (ta, tb) not in seen:
                        seen.add((ta, tb))
                        todo.append((ta, tb))
        n = NFA()
        base = [n.state() for _ in self.trans]
        for i, r in enumerate(self.trans):
            for lo, hi, t in r:
                n.edges[base[i]].append((((lo, hi),), base[t]))
        s = n.state()
        for x in starts:
            n.eps[s].append(base[x])
        return determinize(n, s, [base[a] for a in self.acc])

    def rquot(self, L):
        """{ w | exists u in L: w u in self }"""
        return self.reverse().lquot(L.reverse()).reverse()

    def lstrip(self, cs):
        star = chars_star(cs)
        return self.lquot(star) & ~(chars(cs) + ALL)

    def rstrip(self, cs):
        star = chars_star(cs)
        return self.rquot(star) & ~(ALL + chars(cs))

    def strip(self, cs):
        return self.lstrip(cs).rstrip(cs)

    def factors(self):
        n = NFA()
        s, a = self._into(n)
        st = n.state()
        live = self.live()
        reach = {0}
        todo = [0]
        while todo:
            x = todo.pop()
            for _, _, t in self.trans[x]:
                if t not in reach and t in live:
                    reach.add(t)
                    todo.append(t)
        for i in reach:
            if i in live:
                n.eps[st].append(s + i)
        return determinize(n, st, [s + i for i in reach if i in live])

    def lengths(self, cap=64):
        """(min, max or None)"""
        if self.empty():
            return None
        w = self.word()
        live = self.live()
        # longest: detect cycle among live
        color = {}
        def dfs(s):
            color[s] = 1
            best = 0 if s in self.acc else -10**9
            for _, _, t in self.trans[s]:
                if t in live:
                    if color.get(t) == 1:
                        raise OverflowError
                    b = memo[t] if t in memo else dfs(t)
                    best = max(best, b + 1)
            color[s] = 2
            memo[s] = best
            return best
        memo = {}
        try:
            return len(w), dfs(0)
        except (OverflowError, RecursionError):
            return len(w), None

    def alphabet(self):
        """char set occurring in some word"""
        live = self.live()
        out = ()
        for i, r in enumerate(self.trans):
            if i in live:
                out += tuple((lo, hi) for lo, hi, t in r if t in live)
        return cs_norm(out)


def _f_and(a, b):
    return a and b


def _f_or(a, b):
    return a or b


def _f_sub(a, b):
    return a and not b


_prod_cache = {}

ALL = Lang.make([[(0, MAX, 0)]], {0})
EMPTY = Lang.make([[(0, MAX, 0)]], set())


@functools.lru_cache(20000)
def lit(s):
    trans = []
    n = len(s)
    dead = n + 1
    for i, ch in enumerate(s):
        c = ord(ch)
        row = []
        if c > 0:
            row.append((0, c - 1, dead))
        row.append((c, c, i + 1))
        if c < MAX:
            row.append((c + 1, MAX, dead))
        trans.append(row)
    trans.append([(0, MAX, dead)])
    trans.append([(0, MAX, dead)])
    return Lang.make(trans, {n})


EPS = lit('')


@functools.lru_cache(None)
def chars(cs):
    """one char of cs"""
    row, p = [], 0
    for lo, hi in cs:
        if lo > p:
            row.append((p, lo - 1, 2))
        row.append((lo, hi, 1))
        p = hi + 1
    if p <= MAX:
        row.append((p, MAX, 2))
    return Lang.make([row, [(0, MAX, 2)], [(0, MAX, 2)]], {1})


@functools.lru_cache(None)
def chars_star(cs):
    return chars(cs).star()


@functools.lru_cache(None)
def containing(s):
    return ALL + lit(s) + ALL


def union(ls):
    r = EMPTY
    for x in ls:
        r = r | x
    return r


@functools.lru_cache(None)
def words(ws):
    return union([lit(w) for w in ws])


SPACE = category('space')
SPACES = chars_star(SPACE)
DIGITS = chars(category('digit')) + chars_star(category('digit'))
#  what int(str) accepts, over-approximated from below/above by the same set
_d = chars(category('digit'))
INT_SYNTAX = SPACES + (EPS | lit('+') | lit('-')) + _d + ((lit('_') | EPS) + _d).star() + SPACES
DEC = (EPS | lit('-')) + chars(cs_chars('0123456789')) + chars_star(cs_chars('0123456789'))
NAT = chars(cs_chars('0123456789')) + chars_star(cs_chars('0123456789'))


# ---------------------------------------------------------------- regexes
class RegexInfo:
    """language of a python regex subtree.  mode 'over': lookarounds/anchors
    accepted everywhere (superset); 'under': they never succeed (subset)."""


CATS = {
    sc.CATEGORY_DIGIT: ('digit', False), sc.CATEGORY_NOT_DIGIT: ('digit', True),
    sc.CATEGORY_SPACE: ('space', False), sc.CATEGORY_NOT_SPACE: ('space', True),
    sc.CATEGORY_WORD: ('word', False), sc.CATEGORY_NOT_WORD: ('word', True),
}


def in_cs(av):
    neg = False
    cs = ()
    for op, a in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            cs += ((a, a),)
        elif op is sc.RANGE:
            cs += (tuple(a),)
        elif op is sc.CATEGORY:
            n, inv = CATS[a]
            c = category(n)
            cs += cs_neg(c) if inv else c
        else:
            raise NotImplementedError(op)
    cs = cs_norm(cs)
    return cs_neg(cs) if neg else cs


NOT_NL = cs_neg(((10, 10),))


def sre_lang(nodes, flags=0, mode='over'):
    r = EPS
    for node in nodes:
        r = r + sre_one(node, flags, mode)
        if r.empty():
            return r
    return r


def icase(cs, flags):
    if not flags & re.IGNORECASE:
        return cs
    out = list(cs)
    for lo, hi in cs:
        for c in range(lo, min(hi, 0x24F) + 1):
            for v in {chr(c).lower(), chr(c).upper()}:
                if len(v) == 1:
                    out.append((ord(v), ord(v)))
    return cs_norm(out)


def sre_one(node, flags, mode):
    op, av = node
    if op is sc.LITERAL:
        return chars(icase(((av, av),), flags))
    if op is sc.NOT_LITERAL:
        return chars(cs_neg(icase(((av, av),), flags)))
    if op is sc.ANY:
        return chars(FULL if flags & re.DOTALL else NOT_NL)
    if op is sc.IN:
        return chars(icase(in_cs(av), flags))
    if op is sc.BRANCH:
        return union([sre_lang(b, flags, mode) for b in av[1]])
    if op is sc.SUBPATTERN:
        g, add, rem, p = av
        return sre_lang(p, (flags | add) & ~rem, mode)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
        lo, hi, p = av
        L = sre_lang(p, flags, mode)
        r = EPS
        for _ in range(lo):
            r = r + L
        if hi is sc.MAXREPEAT:
            return r + L.star()
        t = EPS
        for _ in range(hi - lo):
            t = EPS | (L + t)
        return r + t
    if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
        return EPS if mode == 'over' else EMPTY
    if op is sc.GROUPREF:
        return ALL if mode == 'over' else EMPTY
    if op is sc.ATOMIC_GROUP:
        return sre_lang(av, flags, mode)
    raise NotImplementedError(op)


@functools.lru_cache(None)
def regex(pattern, flags=0, mode='over'):
    p = sp.parse(pattern, flags)
    return sre_lang(list(p), p.state.flags, mode)


def rx(pattern):
    return regex(pattern, re.DOTALL)
