"""Symbolic matches of the repository's own compiled regular expressions (from their parse trees).

An arbitrary match is built from the parse tree: every text a group can capture is covered; lookarounds, anchors
and greediness are ignored (superset of the real matches)."""
import re
from re import _constants as sc, _parser as sp

from . import automata as A
from .explore import lang_of
from .interp import MISSING
from .values import *  # noqa
from .values import S, SI, Atom, Bound, Builtin, Func, Obj, Opaque, PathEnd, SDict, Seg, SList, Unsupported, atom_of, is_str, rope

_parsed = {}


def parsed(pat):
    k = (pat.pattern, pat.flags)
    if k not in _parsed:
        _parsed[k] = sp.parse(pat.pattern, pat.flags & ~re.DEBUG)
    return _parsed[k]


def has_groups(node):
    op, av = node
    if op is sc.SUBPATTERN:
        return av[0] is not None or any(has_groups(n) for n in av[3])
    if op is sc.BRANCH:
        return any(has_groups(n) for b in av[1] for n in b)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
        return any(has_groups(n) for n in av[2])
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        return False
    if op is sc.GROUPREF:
        return True
    if op is sc.ATOMIC_GROUP:
        return any(has_groups(n) for n in av)
    return False


def inner_groups(nodes):
    for n in nodes:
        op, av = n
        if op is sc.SUBPATTERN:
            if av[0] is not None:
                yield av[0], n
            yield from inner_groups(av[3])
        elif op is sc.BRANCH:
            for b in av[1]:
                yield from inner_groups(b)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            yield from inner_groups(av[2])
        elif op is sc.ATOMIC_GROUP:
            yield from inner_groups(av)


_langs = {}


def count_nodes(nodes):
    c = 0
    for op, av in nodes:
        c += 1
        if op is sc.SUBPATTERN:
            c += count_nodes(av[3])
        elif op is sc.BRANCH:
            c += sum(count_nodes(b) for b in av[1])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            c += count_nodes(av[2])
        elif op is sc.ATOMIC_GROUP:
            c += count_nodes(av)
    return c


def min_width(nodes):
    c = 0
    for op, av in nodes:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            c += 1
        elif op is sc.SUBPATTERN:
            c += min_width(av[3])
        elif op is sc.BRANCH:
            c += min(min_width(b) for b in av[1])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            c += av[0] * min_width(av[2])
        elif op is sc.ATOMIC_GROUP:
            c += min_width(av)
    return c


def lang_cached(nodes, flags, key):
    k = (id(key), flags)
    if k not in _langs:
        rest = A.ALL if min_width(nodes) == 0 else A.chars(A.cs_norm(A.FULL)) + A.ALL
        L = rest
        if count_nodes(nodes) <= 20:
            try:
                L = A.sre_lang(nodes, flags)
            except Unsupported:
                pass
            if len(L.trans) > 150:
                L = rest
        _langs[k] = (L, key)
    return _langs[k][0]


class Walker:
    def __init__(self, path, pat):
        self.p = path
        self.pat = pat
        self.tree = parsed(pat)
        self.groups = {}
        self.names = {v: k for k, v in pat.groupindex.items()}
        self.order = []
        self.lazy = {}

    def run(self):
        return self.seq(list(self.tree), self.tree.state.flags)

    def seq(self, nodes, flags, name='m'):
        out = []
        plain = []

        def flush():
            if not plain:
                return
            if all(n[0] is sc.LITERAL for n in plain) and not flags & re.IGNORECASE:
                out.append(''.join(chr(n[1]) for n in plain))
            else:
                L = A.sre_lang(plain, flags)
                if L.empty():
                    raise PathEnd()
                ws = L.finite_words(1) if L != A.EPS else None
                if ws is not None and len(ws) == 1:
                    out.append(list(ws)[0])
                elif L != A.EPS:
                    out.append(self.p.atom(name, L, ('match', self.pat.pattern)))
            plain.clear()
        for n in nodes:
            op, av = n
            if op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                continue
            if not has_groups(n):
                # literal runs stay literals
                if plain and (plain[-1][0] is sc.LITERAL) != (op is sc.LITERAL):
                    flush()
                plain.append(n)
                continue
            flush()
            out.append(self.one(op, av, flags, name))
        flush()
        return rope(*out)

    def one(self, op, av, flags, name='m'):
        p = self.p
        if op is sc.SUBPATTERN:
            g, add, rem, sub = av
            fl = (flags | add) & ~rem
            nm = self.names.get(g, f'g{g}')
            if g is not None and not any(has_groups(n) for n in sub):
                L = lang_cached(list(sub), fl, sub)
                if L.empty():
                    raise PathEnd()
                ws = L.finite_words(1) if L != A.EPS else ['']
                if ws is not None and len(ws) == 1:
                    r = list(ws)[0]
                else:
                    r = p.atom(nm, L, ('group', self.pat.pattern, nm))
            else:
                r = self.seq(list(sub), fl, nm)
            if g is not None:
                self.groups[g] = r
                self.order.append(g)
            return r
        if op is sc.BRANCH:
            alts = av[1]
            i = p.choose(len(alts), 'branch')
            return self.seq(list(alts[i]), flags)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if lo == 0 and p.choose(2, 'repeat') == 1:
                return ''
            if hi == 1:
                return self.seq(list(sub), flags)
            # groups inside of a repetition: looked at when they are asked for
            for g, node in inner_groups(sub):
                self.lazy[g] = (node, flags, lo >= 1 and any(n is node for n in sub))
            L = lang_cached([(op, (max(lo, 1), hi, sub))], flags, av)
            return p.atom(name, L, ('match', self.pat.pattern)) if L != A.EPS else ''
        if op is sc.GROUPREF:
            if self.value(av) is not None:
                return self.groups[av]
            raise PathEnd()
        if op is sc.ATOMIC_GROUP:
            return self.seq(list(av), flags)
        raise Unsupported(f'regex {op}')


    def value(self, g):
        """text of the group, or None"""
        if g not in self.groups and g in self.lazy:
            node, flags, must = self.lazy[g]
            p = self.p
            av = node[1]
            fl = (flags | av[1]) & ~av[2]
            if not must and p.choose(2, 'group takes part') == 1:
                self.groups[g] = None
            else:
                L = lang_cached(list(av[3]), fl, av[3])
                nm = self.names.get(g, f'g{g}')
                self.groups[g] = p.atom(nm, L, ('group', self.pat.pattern, nm)) if L != A.EPS else ''
        return self.groups.get(g)


class Match:
    """spec of a match object"""
    notnone = True

    def __init__(self, walker, whole, text):
        self.w = walker
        self.whole = whole
        self.text = text

    def truth(self, interp, p, o):
        return True

    def group_index(self, interp, g):
        if isinstance(g, str):
            if g not in self.w.pat.groupindex:
                interp.throw(IndexError, 'no such group')
            return self.w.pat.groupindex[g]
        if isinstance(g, int):
            if not 0 <= g <= self.w.pat.groups:
                interp.throw(IndexError, 'no such group')
            return g
        raise Unsupported('group index')

    def group(self, interp, p, *gs):
        def one(g):
            i = self.group_index(interp, g)
            if i == 0:
                return self.whole
            return self.w.value(i)
        if not gs:
            return self.whole
        if len(gs) == 1:
            return one(gs[0])
        return tuple(one(g) for g in gs)

    def val(self, i, default):
        r = self.w.value(i)
        return default if r is None else r

    def groupdict(self, interp, p, default=None):
        return p.sdict({n: self.val(i, default) for n, i in self.w.pat.groupindex.items()})

    def getattr(self, interp, p, o, name, default=MISSING):
        if name == 'group':
            return Builtin('group', lambda i, p, *a: self.group(i, p, *a))
        if name == 'groupdict':
            return Builtin('groupdict', lambda i, p, *a: self.groupdict(i, p, *a))
        if name == 'groups':
            return Builtin('groups', lambda i, p, d=None: tuple(self.val(k, d) for k in range(1, self.w.pat.groups + 1)))
        if name in ('start', 'end'):
            def pos(i, p, g=0):
                k = ('mpos', o.rid, name, g)
                if k not in p.memo:
                    p.memo[k] = p.int(name, 0)
                return p.memo[k]
            return Builtin(name, pos)
        if name == 'lastgroup':
            if self.w.lazy:
                raise Unsupported('lastgroup')
            last = [g for g in self.w.order]
            if not last:
                return None
            return self.w.names.get(last[-1])
        if name == 'string':
            return self.text
        if name == 're':
            return self.w.pat
        if name == 'pos':
            return 0
        raise Unsupported(f'match.{name}')

    def getitem(self, interp, p, o, g):
        return self.group(interp, p, g)


def new_match(interp, p, pat, text):
    w = Walker(p, pat)
    whole = w.run()
    o = p.opaque('match', Match(w, whole, text))
    h = interp.hooks.get('match')
    if h:
        h(interp, o, pat, text)
    return o


def real_match(interp, p, pat, text, m):
    w = Walker(p, pat)
    w.groups = {k: m.group(k) for k in range(1, pat.groups + 1)}
    w.order = [k for k in range(1, pat.groups + 1) if m.group(k) is not None]
    o = p.opaque('match', Match(w, m.group(0), text))
    h = interp.hooks.get('match')
    if h:
        h(interp, o, pat, text)
    return o


_match_langs = {}


def match_langs(pat, kind):
    """(a language with all texts that the pattern matches, a language with such texts only), or None"""
    k = (pat.pattern, pat.flags, kind)
    if k not in _match_langs:
        try:
            _match_langs[k] = _langs_of(pat, kind)
        except (Unsupported, NotImplementedError):
            _match_langs[k] = None
    return _match_langs[k]


def _langs_of(pat, kind):
    tree = parsed(pat)
    nodes, flags = list(tree), tree.state.flags
    if count_nodes(nodes) > 25:
        return None
    first, last = kind != 'search', A.EPS if kind == 'fullmatch' else A.ALL
    if nodes and nodes[0][0] is sc.AT and nodes[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not flags & re.MULTILINE:
        first = True
        nodes = nodes[1:]
    if nodes and nodes[-1][0] is sc.AT and nodes[-1][1] in (sc.AT_END, sc.AT_END_STRING) and not flags & re.MULTILINE:
        end = A.EPS if nodes[-1][1] is sc.AT_END_STRING else A.EPS | A.lit('\n')
        last = last & end
        nodes = nodes[:-1]
    res = []
    for mode in ('over', 'under'):
        L = A.sre_lang(nodes, flags, mode)
        L = (A.EPS if first else A.ALL) + L + last
        if len(L.trans) > 150:
            return None
        res.append(L)
    return res


def site(interp):
    return f'{interp.frames[-1].func.qualname}:{interp.frames[-1].line}'


def pattern_method(interp, pat, name):
    def check_text(i, text):
        if not is_str(text):
            if isinstance(text, Opaque):
                raise Unsupported('regex on an unknown value')
            i.throw(TypeError, 'expected string or bytes-like object')

    def sub(i, p, repl, text, count=0, flags=0):
        check_text(i, text)
        if not (isinstance(count, int) and count == 0) and not (isinstance(repl, str) and isinstance(text, str) and isinstance(count, int)):
            h = i.hooks.get('sub_count')
            # the hook answers for the texts with more than count matches
            few = isinstance(text, str) and isinstance(count, int) and count > sum(1 for _ in pat.finditer(text))
            if not few and not (h and isinstance(count, int) and count > 0 and not isinstance(text, str) and h(i, pat, repl, text, count)):
                raise Unsupported('re.sub with a count')
        if isinstance(repl, str):
            if isinstance(text, str):
                try:
                    return pat.sub(repl, text, count)
                except Exception as e:
                    raise TExc(e, type(e))
            parts = sp.parse_template(repl, pat)
            if len(parts) == 1:
                return p.derived('re.sub', [pat.pattern, pat.flags, repl, text], sub_lang(pat, repl, text))
            # a template with groups does what the function would do that puts the parts together
            repl = Builtin('template', lambda ip, pp, m: rope(*[m.spec.whole if k == 0 else m.spec.w.value(k) or '' if isinstance(k, int) else k for k in parts]))
        elif is_str(repl):
            raise Unsupported('re.sub with an unknown template')
        h = i.hooks.get('resub')
        if h:
            r = h(i, pat, repl, text)
            if r is not NotImplemented:
                return r
        from . import loops
        out = p.slist(meta={'internal': True})

        def body():
            m = new_match(i, p, pat, text)
            r = i.call(repl, (m,))
            p.extra['sub_iter'] = (pat, text, m, r)
            if r is not None:
                if not is_str(r):
                    i.throw(TypeError, 'expected str instance')
                p.log.append(('l', out, None, None))
                out.items.append(r)
        loops.loop(i, f'sub {site(i)}', body)
        a = Atom('resub', A.ALL, ('resub', pat, text, [alt for s in out.items if isinstance(s, Seg) for alt in s.alts]))
        p.new(a)
        return S((a,))

    def subn(i, p, repl, text, count=0):
        return (sub(i, p, repl, text, count), p.int('n', 0))

    def find(kind):
        def f(i, p, text, *rest):
            check_text(i, text)
            if isinstance(text, str) and not rest:
                m = getattr(pat, kind)(text)
                return None if m is None else real_match(i, p, pat, text, m)
            langs = None if rest or atom_of(text) is None else match_langs(pat, kind)
            if langs is None:
                if p.choose(2, f'match {kind}') == 1:
                    return None
                return new_match(i, p, pat, text)
            over, under = langs
            if not p.fork_lang(atom_of(text), over, f'match {kind}'):
                return None
            if not over <= under and not p.fork_lang(atom_of(text), under, f'match {kind}') and p.choose(2, f'match {kind}') == 1:
                return None
            return new_match(i, p, pat, text)
        return f

    def finditer(i, p, text, *rest):
        check_text(i, text)
        return p.slist([Seg('src', elem=lambda ip, pp: new_match(ip, pp, pat, text), name='finditer', src=('finditer', pat, text))])

    def findall(i, p, text, *rest):
        check_text(i, text)

        def el(ip, pp):
            w = Walker(pp, pat)
            whole = w.run()
            if pat.groups == 0:
                return whole
            if pat.groups == 1:
                return w.value(1) or ''
            return tuple(w.value(k) or '' for k in range(1, pat.groups + 1))
        return p.slist([Seg('src', elem=el, name='findall', src=('findall', pat, text))])

    def split(i, p, text, *rest):
        check_text(i, text)
        L = A.ALL
        if pat.groups == 0:
            def el(ip, pp):
                return pp.atom('part', L, ('resplit', pat.pattern, text))
        else:
            def el(ip, pp):
                if pp.choose(2, 'split') == 0:
                    return pp.atom('part', L, ('resplit', pat.pattern, text))
                w = Walker(pp, pat)
                w.run()
                return w.value(1 + pp.choose(pat.groups, 'g'))
        return p.slist([Seg('src', elem=el, name='resplit', src=('resplit', pat, text), nonempty=True)])
    t = {'sub': sub, 'subn': subn, 'match': find('match'), 'search': find('search'), 'fullmatch': find('fullmatch'),
         'finditer': finditer, 'findall': findall, 'split': split}.get(name)
    if t is None:
        if name in ('pattern', 'flags', 'groups', 'groupindex'):
            return getattr(pat, name)
        raise Unsupported(f'pattern.{name}')
    return Builtin(name, t)


def sub_lang(pat, repl, text):
    return A.ALL
