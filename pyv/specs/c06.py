"""C06: the table of contents lists exactly the headings, in order and nested.

flat_list2nest_list: loop invariant over the real loop, for every list of entries: the tree is nested as a right spine,
the stack holds the lists of the spine, and the tree, read in order with the depth of every string, is the list of the
entries so far.  The other functions of TableOfContent, header_emit, macro_emit and emit are verified against that."""
import ast
import html
import re

import z3

from creole.emitter.creol2html_emitter import HtmlEmitter, TableOfContent
from creole.parser.creol2html_parser import CreoleParser
from creole.shared import utils
from creole.shared.document_tree import DocNode

from .. import automata as A
from .. import concrete, models
from ..explore import lang_of
from ..values import Obj, Opaque, PathEnd, S, SB, SI, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, parts_of, rope
from ..rematch import new_match
from . import c02
from . import env_creole as env
from . import env_edge as edge
from . import env_parser as envp

MARKER = '<<toc>>'
PARA = '<p><<toc>></p>'
LITERAL = '&lt;&lt;toc&gt;&gt;'
SPACES = A.chars_star(A.SPACE)
NOTHING = 'raises nothing'
STEP = 'an entry is added at the depth of its level, behind all others'
TREE = 'the tree of all entries is returned'
ENTRY = 'an entry is a link to its anchor with the text of the heading'
LIST = 'a list is written as ul with every item once, in order'
WHICH = 'the entries are the headings up to the given depth, in order'
PLACE = 'the list replaces the first placeholder'
FIRST = 'the first toc macro gives the placeholder and sets the depth'
FURTHER = 'a further toc macro gives literal text and changes nothing'
TYPE = 'a depth that is no number is refused'
ADD = 'a heading is added once, behind all others, with its level and text'
NOADD = 'only headings are added'
ANCHOR = 'the anchor of a heading has the name of its entry'
NAME = 'the toc macro writes what the table of contents returns'
HEAD = 'a heading of the source becomes one header node with its level and text'
MACRO = 'a macro of the source is recorded by its name'
CREATED = 'a document with a toc macro gets a table of contents'
WHOLE = 'the whole document is handed over to the table of contents'


def prove(pr):
    calls = [(nesting, (None,)), (nesting, (8,)), (to_html, ('str',)), (to_html, ('list',)), (emit, ('para',)), (emit, ('end',)), (emit, ('start',)), (emit, ('none',)),
             (call, ()), (adding, ()), (whole, ()), (children, ()), (created, ())]
    calls = [(parsing, ('block_re', True)), (parsing, ('block_re', False)), (parsing, ('inline_re', True))] + calls
    calls += [(kinds, (k,)) for k in env.KINDS]
    calls += [(macro, (k,)) for k in env.MACROS]
    pr.units(calls)
    pr.assume('the emission of a node contains the emissions of its children in order (C01, C03)')
    pr.assume('induction over the calls: the list of headlines is the list of the headings emitted so far')
    pr.assume('lemma: induction over the list of entries with the steps of flat_list2nest_list')
    pr.assume('the emitted document contains the text <<toc>> only where the first toc macro stands (text is escaped: C01; macros of the caller excepted)')
    pr.trust('html.unescape', 'decodes &lt; &gt; &amp; &quot; as a browser does')


# ---------------------------------------------------------------- flat_list2nest_list
def tokens(items, depth=1):
    for x in items:
        if isinstance(x, SList):
            yield from tokens(x.items, depth + 1)
        else:
            yield depth, id(x) if isinstance(x, Seg) else key_of(x)


def spine(tree):
    out = [tree]
    while out[-1].items and isinstance(out[-1].items[-1], SList):
        out.append(out[-1].items[-1])
        if len(out) > 50:
            raise Unsupported('the tree contains itself')
    return out


def closed(i, p):
    raise Unsupported('an item of the tree is read')


class Unknown:
    """a local variable that an earlier iteration may have left"""


def stored(body):
    return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def find_stack(fr):
    """(name, stack, tree) at the start of the loop"""
    trees = {n: x for n, x in fr.locals.items() if isinstance(x, SList) and not x.items}
    stacks = {n: x for n, x in fr.locals.items() if isinstance(x, SList) and len(x.items) == 1 and any(x.items[0] is t for t in trees.values())}
    if len(stacks) != 1:
        raise Unsupported('no stack of lists')
    (sname, stack), = stacks.items()
    tree = stack.items[0]
    if any(x is not tree for x in trees.values()):
        raise Unsupported('another list')
    return sname, stack, tree


def forget(p, fr, names, keep=()):
    for n in names - set(keep):
        fr.locals[n] = p.opaque(n, Unknown())


def changed(p, at, mark, lists, frames=()):
    """only the lists are changed"""
    for ent in p.log[at:]:
        o = ent[1]
        if ent[0] == 'v':
            if o.mark < mark and not any(o is f for f in frames):
                raise Unsupported(f'{ent[2]} is changed in the loop')
        elif o.rid < mark and not any(o is y for y in lists):
            raise Unsupported(f'{o!r} is changed in the loop')


def nesting(pr, depth):
    """depth: None for every depth, else the depths 1 to depth"""
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        seg = Seg('src', elem=lambda i, q: (q.int('level', 1) if depth is None else 1 + q.choose(depth, 'level'), q.atom('heading')), name='entries')
        flat = p.slist([seg])
        p.extra['entries'] = seg
        try:
            r = v.call(TableOfContent.flat_list2nest_list, toc, flat)
        except TExc as e:
            v.require(NOTHING, False, f'{e.cls.__name__} ({v.where()})')
            return
        if 'tree' not in p.extra:
            raise Unsupported('no loop over the entries')
        v.decide(TREE, r is p.extra['tree'] and (list(r.items) == p.extra['items'] or None), f'{r!r}')

    def inv(interp, it, items, node, fr, body):
        p = interp.path
        if p.extra.get('state') and depth is None and len(items) == 1 and isinstance(items[0], Seg) and isinstance(items[0].src, tuple) and items[0].src[0] == 'range':
            _r, lo, hi = items[0].src
            return deeper(interp, fr, stored([node]), lambda j: hi > lo + j, lambda j: j == z3.If(hi > lo, hi - lo, 0), lambda: body(items[0].elem(interp, p)))
        if len(items) != 1 or items[0] is not p.extra.get('entries'):
            return False
        v = p.run
        if 'tree' in p.extra or not isinstance(node, ast.For) or node.orelse or fr.func.qualname.rsplit('.', 1)[-1] != 'flat_list2nest_list':
            raise Unsupported('another loop over the entries')
        sname, stack, tree = find_stack(fr)
        names = stored([node])
        for n in names & set(fr.locals):
            if n != sname:
                raise Unsupported(f'{n} is changed in the loop')
        p.extra['tree'] = tree
        c = p.choose(2, 'entries')
        if c == 1:
            tree.items[:] = [Seg('src', elem=closed, name='tree')]
            p.extra['items'] = list(tree.items)
            stack.items[:] = [Seg('src', elem=closed, name='stack')]
            forget(p, fr, names, (sname,))
            return True
        state = (Concrete if depth else Symbolic)(p, tree, stack, depth)
        if tree.items:
            forget(p, fr, names, (sname,))
        level, text = x = items[0].elem(interp, p)
        state.entry(level)
        if p.check() == z3.unsat:
            raise PathEnd()
        mark, at = len(p.reg), len(p.log)
        p.extra['state'] = state
        try:
            body(x)
        except TExc as e:
            v.require(NOTHING, False, f'an entry after {state!r}: {e.cls.__name__} ({v.where()})')
            raise PathEnd()
        v.require(NOTHING, True)
        changed(p, at, mark, [stack] + state.lists(), [fr])
        v.decide(STEP, state.step(level, text), f'an entry after {state!r}')
        st = fr.locals.get(sname)
        v.decide(TREE, isinstance(st, SList) and state.holds(st, level) or None, f'the stack {st!r} is not the path to the last entry')
        raise PathEnd()

    def while_inv(interp, s, fr):
        p = interp.path
        if not p.extra.get('state'):
            return False
        if depth is not None:
            # lengths and levels are numbers: unrolled
            for _i in range(100):
                t = interp.ev(s.test, fr)
                if not isinstance(t, bool):
                    raise Unsupported('loop over the path')
                if not t:
                    return True
                interp.body_of(s.body, fr)
            v = p.run
            v.require(NOTHING, False, f'endless loop ({v.where()})')
            raise PathEnd()

        def test():
            return interp.truth(interp.ev(s.test, fr))

        def once():
            if not test():
                raise PathEnd()
            interp.body_of(s.body, fr)
        level = p.extra['state'].level
        return deeper(interp, fr, stored(s.body), lambda j: level >= p.extra['state'].k + j, lambda j: z3.Or(j == 0, level >= p.extra['state'].k + j), once, lambda: test())

    label = 'TableOfContent.flat_list2nest_list' + (f'[levels 1 to {depth}]' if depth else '')
    pr.verify(label, run, [NOTHING, STEP, TREE], hooks={'loop_inv': inv, 'while_inv': while_inv})


class Concrete:
    """an arbitrary tree whose last entry has one of the depths 1 to n"""

    def __init__(self, p, tree, stack, n):
        k = p.choose(n + 1, 'depth')
        lists = [tree] + [p.slist() for _ in range(k - 1)]
        for i, ls in enumerate(lists):
            ls.items[:] = [Seg('src', elem=closed, name=f'before {i + 1}')]
            ls.items.append(lists[i + 1] if i + 1 < len(lists) else p.atom('last'))
        if k == 0:
            tree.items[:] = []
        stack.items[:] = self.spine = lists
        self.tree = tree
        self.before = list(tokens(tree.items))
        self.spine = list(lists)

    def __repr__(self):
        return f'a tree of depth {len(self.spine)}'

    def entry(self, level):
        self.level = level

    def lists(self):
        return self.spine

    def step(self, level, text):
        return list(tokens(self.tree.items)) == self.before + [(level, key_of(text))]

    def holds(self, st, level):
        now = spine(self.tree)
        return len(st.items) == len(now) and all(a is b for a, b in zip(st.items, now)) and bool(now[-1].items) and is_str(now[-1].items[-1])


class Symbolic:
    """an arbitrary tree whose last entry has any depth k; of the lists on the path to it those are named that an entry
    can go to: the tree, the list at the depth of the level (when the path is as deep), the deepest"""

    def __init__(self, p, tree, stack, _depth):
        self.p = p
        self.tree, self.stack = tree, stack
        self.chain = None

    def __repr__(self):
        return self.name

    def entry(self, level):
        p = self.p
        self.level = lv = models.zint(level)
        c = p.choose(5, 'case')
        self.name = ['the empty tree', 'a tree of depth 1', 'a tree of the depth of the level', 'a deeper tree', 'a tree of less depth'][c]
        k = self.k = z3.IntVal(1) if c < 2 else p.int('k', 2).e
        if c == 2:
            p.assume(k == lv)
        elif c == 3:
            p.assume(lv < k)
        elif c == 4:
            p.assume(lv > k)
        self.named = [self.tree]

        def rest(name):
            ls = p.slist([Seg('src', elem=closed, name=name)])
            self.named.append(ls)
            return ls

        def hidden(name, n):
            s = Seg('src', elem=closed, name=name)
            s.n = (p, SI(n))
            p.assume(n >= 0)
            return s
        self.tree.items[:] = [] if c == 0 else [Seg('src', elem=closed, name='tree')]
        if c < 2:
            path = [self.tree]
        elif c in (2, 4):
            path = [self.tree, hidden('path', k - 2), rest('deepest')]
        elif p.choose(2, 'first'):
            p.assume(lv == 1)
            path = [self.tree, hidden('path', k - 2), rest('deepest')]
        else:
            p.assume(lv > 1)
            path = [self.tree, hidden('path', lv - 2), rest('at the level'), hidden('path', k - lv - 1), rest('deepest')]
        self.path = path
        self.stack.items[:] = list(path)
        self.old = [(ls, list(ls.items)) for ls in self.named]

    def lists(self):
        return self.named

    def place(self):
        """the position of the list at the level in the path"""
        at = z3.IntVal(0)
        for i, x in enumerate(self.path):
            at = at + (models.zint(models.seg_len(self.p, x)) if isinstance(x, Seg) else 1)
            if not isinstance(x, Seg) and self.p.entails(at == self.level):
                return i
        return None

    def step(self, level, text):
        i = self.place()
        grown = [(ls, ls.items[len(old):], list(ls.items[:len(old)]) == old) for ls, old in self.old]
        if not all(ok for _ls, _new, ok in grown):
            return False
        if i is not None:
            target = self.path[i]
            return all([key_of(y) for y in new] == ([key_of(text)] if ls is target else []) for ls, new, _ok in grown)
        # deeper than the tree
        target = self.path[-1]
        if any(new for ls, new, _ok in grown if ls is not target):
            return False
        new = target.items[len(self.old[-1][1]):]
        if self.chain is not None:
            n, last = self.chain
            good = len(new) == 1 and new[0] is self.token and [key_of(y) for y in last.items] == [key_of(text)]
            return bool(good) and self.p.entails(self.k + n == self.level)
        n, x = 0, new
        while len(x) == 1 and isinstance(x[0], SList):
            x = x[0].items
            n += 1
        return [key_of(y) for y in x] == [key_of(text)] and self.p.entails(self.k + n == self.level)

    def holds(self, st, level):
        i = self.place()
        if i is not None:
            return same_items(st.items, self.path[:i + 1])
        if self.chain is not None:
            return same_items(st.items, self.path + self.more)
        x = self.path[-1]
        path = list(self.path)
        while x.items and isinstance(x.items[-1], SList):
            x = x.items[-1]
            path.append(x)
        return same_items(st.items, path)


def same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def deeper(interp, fr, names, more, done, body, test=None):
    """a loop that makes the path longer: after j iterations a chain of j new lists hangs on the list that was the deepest.
    more(j): there is another iteration; done(j): the loop may end"""
    p = interp.path
    v = p.run
    state = p.extra['state']
    if state.chain is not None:
        raise Unsupported('another loop over the path')
    deepest = state.path[-1]
    stacks = {n: x for n, x in fr.locals.items() if isinstance(x, SList) and x.items and x.items[-1] is deepest}
    if len({id(x) for x in stacks.values()}) != 1 or not same_items(list(stacks.values())[0].items, state.path):
        raise Unsupported('no stack of lists')
    st = list(stacks.values())[0]
    if any(ls.items != old for ls, old in state.old) or names & set(fr.locals) - {n for n in names if isinstance(fr.locals.get(n), Opaque)}:
        raise Unsupported('the loop changes something else')
    c = p.choose(2, 'longer path')
    some = p.choose(2, 'chain')
    j = p.int('j', 1).e if some else z3.IntVal(0)
    p.assume(done(j) if c == 1 else z3.And(more(j), done(j)) if test else more(j))
    if p.check() == z3.unsat:
        raise PathEnd()
    last = deepest
    if some:
        forget(p, fr, names)
        last = p.slist()
        seg = Seg('src', elem=closed, name='chain')
        seg.n = (p, SI(j - 1))
        state.token = Seg('src', elem=closed, name='chain of lists', nonempty=True)
        state.more = [seg, last]
        deepest.items.append(state.token)
        st.items.extend(state.more)
        state.chain = j, last
    if c == 1:
        if test and test():
            raise PathEnd()
        return True
    before, top = list(last.items), list(st.items)
    mark, at = len(p.reg), len(p.log)
    name = 'the path is made longer by one list'
    try:
        body()
    except TExc as e:
        v.require(NOTHING, False, f'{e.cls.__name__} ({v.where()})')
        raise PathEnd()
    changed(p, at, mark, [st, last], [fr])
    new = last.items[len(before):]
    ok = same_items(last.items[:len(before)], before) and len(new) == 1 and isinstance(new[0], SList) and new[0].rid >= mark and not new[0].items \
        and same_items(st.items, top + new)
    if any(x is not st for n, x in fr.locals.items() if n in stacks) or test and not p.entails(state.level >= state.k + j + 1):
        ok = False
    if not ok:
        raise Unsupported(name)
    raise PathEnd()


# ---------------------------------------------------------------- nested_headlines2html
def decodes(v):
    """the text that is escaped in v, when v is a chain of replacements of characters in one atom; (atom, ok)"""
    chain = []
    a = atom_of(v)
    while a is not None and a.origin[0] == 'replace':
        _r, src, old, new, count = a.origin
        if not (isinstance(old, str) and isinstance(new, str) and len(old) == 1 and count == -1):
            return None, None
        chain.append((old, new))
        a = atom_of(src)
    if a is None:
        return None, None
    chain.reverse()
    for c in '<>&"\'`#;%/=x \t\n\\' + ''.join(old for old, _n in chain):
        t = c
        for old, new in chain:
            t = t.replace(old, new)
        if html.unescape(t) != c or t != c and not re.fullmatch(r'&[#\w]+;', t) or '&' in t and t == c:
            # one character that may not occur in the text
            if not (a.lang & A.containing(c)).empty():
                return a, False
    return a, True


def blank(q):
    return not isinstance(q, str) and q.lang <= SPACES


def shape(v):
    """(text in which every atom is a private character, atoms); atoms that are white space only are left out"""
    out, atoms = '', []
    for q in parts_of(v):
        if isinstance(q, str):
            out += q
        elif not blank(q):
            out += chr(0xe000 + len(atoms))
            atoms.append(q)
    return out, atoms


def link_of(v, r, text):
    """r is <li><a href="#..">..</a></li> with the text"""
    t, atoms = shape(r)
    m = re.fullmatch(r'\s*<li>\s*<a href="#([\ue000-\uefff]*)">([\ue000-\uefff]*)</a>\s*</li>\s*', t)
    if not m:
        return None if len(atoms) > 2 else False
    return both(m, atoms, text)


def both(m, atoms, text):
    if m.group(1) and not (atoms[ord(m.group(1)[0]) - 0xe000].lang & A.containing('"')).empty():
        return False
    res = True
    for g in m.groups():
        if text == '' or not g:
            if g or is_str(text) and not isinstance(text, str):
                return False
            continue
        if len(g) != 1:
            return None
        a, ok = decodes(S((atoms[ord(g) - 0xe000],)))
        if a is None:
            res = None
        elif a is not atom_of(text) or not ok:
            return False
    return res


class Rec:
    name = 'nested_headlines2html'

    def apply(self, interp, p, args, kwargs):
        if not p.extra.get('rec'):
            p.extra['rec'] = True
            return NotImplemented
        return p.derived('rec', [args[1]], A.ALL)


def nest(p):
    return p.atom('headline') if p.choose(2, 'nest') == 0 else p.slist([Seg('src', elem=closed, name='inner')])


def to_html(pr, what):
    checked = {}

    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        seg = Seg('src', elem=lambda i, q: nest(q), name='items')
        x = p.atom('headline') if what == 'str' else p.slist([seg])
        p.extra['items'] = seg
        args = () if p.choose(2, 'level') else (p.int('level', 0),)
        try:
            r = v.call(TableOfContent.nested_headlines2html, toc, x, *args)
        except TExc as e:
            v.require(NOTHING, False, f'{e.cls.__name__} ({v.where()})')
            return
        v.require(NOTHING, True)
        if not is_str(r):
            v.decide(ENTRY if what == 'str' else LIST, False, f'{r!r}')
            return
        if what == 'str':
            v.decide(ENTRY, link_of(v, r, x), f'{r!r}')
            return

        def later():
            t, atoms = shape(r)
            m = re.fullmatch(r'\s*<ul>\s*([\ue000-\uefff]?)\s*</ul>\s*', t)
            if not m:
                return False, f'{r!r}', not any(a.origin[0] not in ('acc', 'rec') for a in atoms)
            if not atoms:
                return False, f'{r!r}: the items are missing', x.items == [] or not p.extra.get('empty')
            o = atoms[0].origin
            if o[0] == 'acc' and o[2] is seg and id(o[1]) in checked:
                return True, ''
            if o[0] == 'join' and isinstance(o[1], str) and not o[1].strip() and isinstance(o[2], Seg) and o[2].src == ('map', seg) and id(o[2].alts) in checked:
                return True, ''
            return False, f'{r!r}', False
        v.require(LIST, later)

    def iteration(interp):
        p = interp.path
        v = p.run
        if 'loop_elem' not in p.extra or p.extra['loop_elem'][0] is not p.extra['items']:
            raise Unsupported('another loop')
        e = p.extra['loop_elem'][1]
        pieces = [(alts, suffix) for alts, _hv, suffix in p.extra['loop_app']]
        for rid, new in p.extra['loop_new'].items():
            segs = [y for y in p.reg[rid].items if isinstance(y, Seg) and y.kind == 'loop']
            if segs:
                pieces.append((segs[-1].alts, one([y for y in new if y is not segs[-1]])))
        for alts, s in pieces:
            checked[id(alts)] = alts
            if s is None or not is_str(s):
                v.decide(LIST, None, f'{s!r} for an item')
                continue
            t, atoms = shape(s)
            recs = [a for a in atoms if a.origin[0] == 'rec']
            ok = t.strip() == '\ue000' and bool(recs) and key_of(recs[0].origin[1]) == key_of(e)
            if not ok and len(recs) != len(atoms):
                ok = None
            v.decide(LIST, ok, f'{s!r} for an item')

    def one(new):
        return new[0] if len(new) == 1 else None if new else ''
    pr.verify(f'TableOfContent.nested_headlines2html[{what}]', run, [NOTHING, ENTRY if what == 'str' else LIST],
              hooks={'iteration': iteration} if what == 'list' else {}, contracts={TableOfContent.nested_headlines2html: Rec()})


# ---------------------------------------------------------------- emit
class Flat:
    name = 'flat_list2nest_list'

    def apply(self, interp, p, args, kwargs):
        x = args[1] if len(args) > 1 else kwargs.get('flat_list')
        p.trace.append(('flat', x))
        if isinstance(x, Opaque) or not isinstance(x, SList):
            raise Unsupported(f'flat_list2nest_list({x!r})')
        return made(p, 'nested', x)


def made(p, name, x):
    k = (name, x.rid)
    if k not in p.memo:
        p.memo[k] = p.slist([Seg('src', elem=closed, name=name)], meta={name: x})
    return p.memo[k]


class Html:
    name = 'nested_headlines2html'

    def apply(self, interp, p, args, kwargs):
        x = args[1]
        lv = args[2] if len(args) > 2 else kwargs.get('level', 0)
        p.trace.append(('html', x, lv))
        return p.derived('tochtml', [x], A.ALL)


def emit(pr, where):
    """the document is `before` <placeholder> `after`"""
    checked = {}

    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        heads = toc.fields['headlines']
        p.extra['heads'] = heads.items[0]
        p.extra['toc'] = toc
        no = A.ALL - A.containing(MARKER)
        if where == 'none':
            a, mark, b = p.atom('before', no), '', ''
        elif where == 'para':
            a, mark, b = p.atom('before', no), PARA, p.atom('after', no)
        elif where == 'end':
            a, mark, b = p.atom('before', no - (A.ALL + A.lit('<p>'))), MARKER, p.atom('after', no)
        else:
            a, mark, b = p.atom('before', no), MARKER, p.atom('after', no - (A.lit('</p>') + A.ALL))
        doc = rope(a, mark, b)
        try:
            r = v.call(TableOfContent.emit, toc, doc)
        except TExc as e:
            v.require(NOTHING, False, f'{e.cls.__name__} ({v.where()})')
            return
        v.require(NOTHING, True)
        if where == 'none':
            v.same(PLACE, r, a)
            return

        def later():
            if not is_str(r):
                return False, f'{r!r}'
            ps = list(parts_of(r))
            hs = [i for i, q in enumerate(ps) if not isinstance(q, str) and q.origin[0] == 'tochtml']
            known = all(isinstance(q, str) or q.origin[0] in ('tochtml', 'free') for q in ps)
            if len(hs) != 1:
                return False, f'{r!r}: the list comes {len(hs)} times', known
            q = ps[hs[0]]
            want = rope(a, S((q,)), b)
            if key_of(r) != key_of(want):
                return False, f'{r!r} instead of {want!r}', known
            x = q.origin[1].meta.get('nested') if isinstance(q.origin[1], SList) else None
            if x is None:
                return False, f'{q.origin[1]!r} is written', False
            return entries(x)

        def entries(x):
            ok = len(x.items) == 1 and isinstance(x.items[0], Seg) and x.items[0].src == ('map', p.extra['heads']) and id(x.items[0].alts) in checked
            if len(x.items) == 1 and x.items[0] is p.extra['heads']:
                # all headings
                depth = v.interp.getattr(toc, 'max_depth')
                ok = depth is None
            return ok, f'the entries are {x.items!r}', False
        v.require(PLACE, later)

    def iteration(interp):
        p = interp.path
        v = p.run
        if 'loop_elem' not in p.extra or p.extra['loop_elem'][0] is not p.extra['heads']:
            raise Unsupported('another loop')
        level, text = p.extra['loop_elem'][1]
        depth = v.interp.getattr(p.extra['toc'], 'max_depth')
        for rid, new in p.extra['loop_new'].items():
            segs = [y for y in p.reg[rid].items if isinstance(y, Seg) and y.kind == 'loop']
            if not segs:
                continue
            checked[id(segs[-1].alts)] = segs[-1].alts
            new = [y for y in new if y is not segs[-1]]
            fits = z3.BoolVal(True) if depth is None else models.zint(level) <= models.zint(depth)
            if len(new) > 1 or new and (not isinstance(new[0], tuple) or key_of(new[0]) != key_of((level, text))):
                v.decide(WHICH, None if new and not isinstance(new[0], tuple) else False, f'{new!r} for the heading {(level, text)!r}')
            else:
                v.require(WHICH, fits if new else z3.Not(fits), f'{new!r} for the heading {(level, text)!r} with depth {depth!r}')
    pr.verify(f'TableOfContent.emit[{where}]', run, [NOTHING, PLACE, WHICH], hooks={'iteration': iteration},
              contracts={TableOfContent.nested_headlines2html: Html(), TableOfContent.flat_list2nest_list: Flat()})


# ---------------------------------------------------------------- __call__, add_headline
class Kwargs:
    def has(self, interp, p, d, k):
        return None

    def value(self, interp, p, d, k):
        return p.opaque('kwarg')

    def key(self, interp, p, d):
        return p.atom('kwname')


def call(pr):
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        pre = dict(toc.fields)
        items = list(toc.fields['headlines'].items)
        created = v.interp.truth(v.interp.getattr(toc, '_created'))
        before = v.interp.getattr(toc, 'max_depth')
        c = p.choose(6, 'depth')
        depth = [None, p.int('depth'), p.atom('depth'), True, False, None][c]
        kw = {} if c == 5 else {'depth': depth}
        if p.choose(2, 'text'):
            kw['text'] = p.atom('text') if p.choose(2, 'content') else None
        try:
            r = v.interp.call(toc, (), kw)
        except TExc as e:
            v.decide(TYPE, not created and is_str(depth) and issubclass(e.cls, TypeError), f'{e.cls.__name__} for depth={depth!r}')
            return
        same = toc.fields['headlines'] is pre['headlines'] and list(toc.fields['headlines'].items) == items
        if created:
            v.decide(FURTHER, r == LITERAL, f'{r!r}')
            now = v.interp.getattr(toc, 'max_depth')
            v.decide(FURTHER, same and v.interp.truth(v.interp.getattr(toc, '_created')) and key_of(now) == key_of(before), 'the state is changed')
            return
        v.decide(TYPE, not is_str(depth), f'depth={depth!r} gives {r!r}')
        v.decide(FIRST, r == MARKER, f'{r!r}')
        v.decide(FIRST, same and v.interp.truth(v.interp.getattr(toc, '_created')), 'the state is wrong')
        if depth is not None and not is_str(depth):
            v.same(FIRST, v.interp.getattr(toc, 'max_depth'), depth)
    pr.verify('TableOfContent.__call__', run, [FIRST, FURTHER, TYPE])

    def new(v):
        p = v.path
        toc = v.call(TableOfContent)
        h = v.interp.getattr(toc, 'headlines')
        v.decide(FIRST, isinstance(h, SList) and h.items == [] and v.interp.getattr(toc, 'max_depth') is None
                 and not v.interp.truth(v.interp.getattr(toc, '_created')), 'the first state')
    pr.verify('TableOfContent.__init__', new, [FIRST])


def added(v, toc, pre, items, level, text):
    p = v.path
    now = toc.fields['headlines']
    if now is not pre or list(now.items[:len(items)]) != items:
        return None
    new = now.items[len(items):]
    if level is None:
        return not new
    return len(new) == 1 and isinstance(new[0], tuple) and len(new[0]) == 2 and key_of(new[0][0]) == key_of(level) and key_of(new[0][1]) == key_of(text)


def adding(pr):
    def run(v):
        p = v.path
        toc = v.call(TableOfContent)
        env.havoc_toc(p, toc)
        pre = toc.fields['headlines']
        items = list(pre.items)
        level, text = p.int('level', 1), p.atom('text')
        try:
            v.call(TableOfContent.add_headline, toc, level, text)
        except TExc as e:
            v.require(ADD, False, f'{e.cls.__name__} ({v.where()})')
            return
        v.decide(ADD, added(v, toc, pre, items, level, text), f'{toc.fields["headlines"]!r}')
    pr.verify('TableOfContent.add_headline', run, [ADD])


# ---------------------------------------------------------------- HtmlEmitter
def with_toc(v, em):
    toc = em.fields.get('toc')
    if not (isinstance(toc, Obj) and toc.cls is TableOfContent):
        raise PathEnd()
    return toc


class Emit:
    """emit_node of another node: may add headings"""
    name = 'emit_node'

    def __init__(self, first):
        self.first = first

    def apply(self, interp, p, args, kwargs):
        node = args[1] if len(args) > 1 else kwargs.get('node')
        if node is p.extra.get('first') and not p.extra.get('emitted'):
            p.extra['emitted'] = True
            return NotImplemented
        if not isinstance(node, Obj):
            raise Unsupported('emit_node')
        return p.derived('emit', [node], A.ALL)


class Add:
    name = 'add_headline'

    def apply(self, interp, p, args, kwargs):
        a = dict(zip(('level', 'content'), args[1:])) | kwargs
        p.trace.append(('add', args[0], a.get('level'), a.get('content')))
        if p.extra.get('inloop'):
            raise Unsupported('add_headline in a loop')
        return None


def kinds(pr, kind):
    head = kind == 'header'

    def run(v):
        p = v.path
        em = env.any_emitter(v)
        toc = with_toc(v, em)
        node = env.arb(p, kind=kind, parent=None if kind == 'document' else env.arb(p))
        p.extra['first'] = node
        pre, items = toc.fields['headlines'], list(toc.fields['headlines'].items)
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc:
            if head:
                v.require(ADD, False, 'exception')
            return      # C02
        adds = [t for t in p.trace if t[0] == 'add']
        direct = toc.fields.get('headlines') is pre and list(pre.items) == items
        if not head:
            v.decide(NOADD, not adds and (direct or None), f'{adds!r}')
            return
        level, text = v.interp.getattr(node, 'level'), v.interp.getattr(node, 'content')
        one = len(adds) == 1 and adds[0][1] is toc and key_of(adds[0][2]) == key_of(level) and key_of(adds[0][3]) == key_of(text)
        v.decide(ADD, one if direct else None, f'{adds!r}')
        t, atoms = shape(r) if is_str(r) else ('', [])
        m = re.fullmatch(r'\s*<a name="([\ue000-\uefff]*)"><h[\ue000-\uefff]>([\ue000-\uefff]*)</h[\ue000-\uefff]></a>\s*', t)
        v.decide(ANCHOR, both(m, atoms, text) if m else None if re.search(r'name="|id="', t) else False, f'{r!r}')
    pr.verify(f'HtmlEmitter.emit_node[{kind}]', run, [ADD, ANCHOR] if head else [NOADD],
              contracts={HtmlEmitter.emit_node: Emit(None), TableOfContent.add_headline: Add()}, models=env.base_models())


class Call:
    """TableOfContent.__call__"""
    name = '__call__'

    def apply(self, interp, p, args, kwargs):
        p.trace.append(('toc', args[0], args[1:], kwargs))
        c = p.choose(3, 'toc')
        p.extra['toc_result'] = (MARKER, LITERAL, None)[c]
        if c == 2:
            interp.throw(TypeError, 'depth must be a number')
        return (MARKER, LITERAL)[c]


def macro(pr, kind):
    def string2dict(interp, p, *args, **kw):
        x = args[0] if args else kw.get('raw_content')
        p.extra['args'] = key_of(x) == key_of(p.run.interp.getattr(p.extra['node'], 'macro_args'))
        try:
            p.extra['kwargs'] = d = env.string2dict_contract(interp, p, *args, **kw)
            p.extra['unknown'] = d.sym
        except TExc:
            p.extra['malformed'] = True
            raise
        return d

    def run(v):
        p = v.path
        em = env.any_emitter(v)
        toc = with_toc(v, em)
        node = p.extra['node'] = env.arb(p, kind=kind, parent=env.arb(p))
        node.fields['macro_name'] = 'toc'
        try:
            r = v.call(HtmlEmitter.emit_node, em, node)
        except TExc:
            return      # C02
        calls = [t for t in p.trace if t[0] == 'toc']
        others = [t for t in p.trace if t[0] in ('macro', 'lookup')]
        wrong = p.extra.get('malformed')
        if wrong:
            v.decide(NAME, not calls, f'called with malformed arguments: {calls!r}')
            return
        if len(calls) != 1 or calls[0][1] is not toc or calls[0][2] or others and any(t[0] == 'macro' for t in others):
            v.decide(NAME, False, f'calls {calls!r} {others!r}')
            return
        kw = dict(calls[0][3])
        d = kw.pop('**', None)
        v.decide(NAME, True if d is not None and d is p.extra['kwargs'] and d.sym is p.extra['unknown'] and set(kw) | set(d.d) <= {'text'} and p.extra['args'] else None,
                 f'the arguments of the call are {calls[0][3]!r}')
        res = p.extra['toc_result']
        if res is not None:
            v.decide(NAME, r.rstrip('\n') == res if isinstance(r, str) else None, f'{r!r} for {res!r}')
    pr.verify(f'HtmlEmitter.emit_node[{kind}: toc]', run, [NAME], contracts={TableOfContent.__call__: Call()},
              models=env.base_models() | {utils.string2dict: string2dict})


def whole(pr):
    def run(v):
        p = v.path
        em = env.any_emitter(v)
        toc = em.fields.get('toc')
        p.extra['first'] = None
        try:
            r = v.call(HtmlEmitter.emit, em)
        except TExc:
            return      # C02
        if not (isinstance(toc, Obj) and toc.cls is TableOfContent):
            return
        emits = [t for t in p.trace if t[0] == 'tocemit']
        doc = p.derived('emit', [em.fields['root']], A.ALL)
        ok = len(emits) == 1 and emits[0][1] is toc and is_str(emits[0][2])
        v.decide(WHOLE, ok, f'{emits!r}')
        if ok:
            x = emits[0][2]
            if key_of(x) != key_of(doc):
                a = atom_of(x) if x != '' else None
                ok = lang_of(doc) <= SPACES if x == '' else True
                while ok and a is not None and key_of(S((a,))) != key_of(doc):
                    ok = a.origin[0] in ('strip', 'lstrip', 'rstrip')
                    a = atom_of(a.origin[1]) if ok else None
                ok = ok and (x == '' or a is not None)
                v.decide(WHOLE, ok or None, f'{x!r}')
            v.decide(WHOLE, is_str(r) and key_of(r) == key_of(p.derived('tocdoc', [x], A.ALL)), f'{r!r}')

    class TocEmit:
        name = 'TableOfContent.emit'

        def apply(self, interp, p, args, kwargs):
            x = args[1] if len(args) > 1 else kwargs.get('document')
            p.trace.append(('tocemit', args[0], x))
            return p.derived('tocdoc', [x], A.ALL)
    pr.verify('HtmlEmitter.emit', run, [WHOLE], contracts={HtmlEmitter.emit_node: Emit(None), TableOfContent.emit: TocEmit()}, models=env.base_models())


def children(pr):
    """emit_children: the emissions of all children, each once, in order"""
    def run(v):
        p = v.path
        em = env.any_emitter(v)
        node = env.arb(p, kind='document', parent=None)
        p.extra['first'] = None
        ch = v.interp.getattr(node, 'children')
        p.extra['children'] = list(ch.items)
        try:
            r = v.call(HtmlEmitter.emit_children, em, node)
        except TExc:
            return

        def later():
            if r == '' and not ch.items:
                return True, ''
            a = atom_of(r) if is_str(r) and r else None
            if a is not None and a.origin[0] in ('join', 'acc'):
                seg, alts = (a.origin[2], a.origin[2].alts) if a.origin[0] == 'join' else (Seg('loop', alts=a.origin[1]), a.origin[1])
                src = seg.src if a.origin[0] == 'join' else ('map', a.origin[2])
                if (a.origin[0] == 'acc' or a.origin[1] == '') and len(ch.items) == 1 and src == ('map', ch.items[0]) and id(alts) in checked:
                    return True, ''
            return False, f'{r!r}', False
        v.require(WHOLE, later)

    def iteration(interp):
        p = interp.path
        v = p.run
        e = p.extra.get('loop_elem', (None, None))[1]
        if not isinstance(e, Obj):
            raise Unsupported('another loop')
        pieces = [(alts, s) for alts, _hv, s in p.extra['loop_app']]
        for rid, new in p.extra['loop_new'].items():
            segs = [y for y in p.reg[rid].items if isinstance(y, Seg) and y.kind == 'loop']
            if segs:
                new = [y for y in new if y is not segs[-1]]
                pieces.append((segs[-1].alts, new[0] if len(new) == 1 else None))
        for alts, s in pieces:
            checked[id(alts)] = alts
            a = atom_of(s) if is_str(s) and s else None
            v.decide(WHOLE, True if a is not None and a.origin[0] == 'emit' and a.origin[1] is e else None, f'{s!r} for a child')
    checked = {}
    pr.verify('HtmlEmitter.emit_children', run, [WHOLE], hooks={'iteration': iteration}, contracts={HtmlEmitter.emit_node: Emit(None)}, models=env.base_models())


# ---------------------------------------------------------------- CreoleParser
class Inline:
    """parse_inline: appends nodes to the children of `cur`; makes no heading (unit of inline_re)"""
    name = 'CreoleParser.parse_inline'

    def apply(self, interp, p, args, kwargs):
        envp.grow_children(p, interp.getattr(args[0], 'cur'))
        envp.set_text(p, args[0])


def parsing(pr, name, blog):
    """a heading of the source becomes one header node with its level and text, a macro of the source is recorded"""
    def run(v):
        p = v.path
        ps = edge.any_parser(v, blog, False, name in edge.INLINE)
        used = v.interp.getattr(ps.fields['root'], 'used_macros')
        m = new_match(v.interp, p, c02.pattern(ps, name), p.atom('text'))
        w = m.spec.w
        has = {w.names.get(g) for g in w.groups if w.groups[g] is not None}
        mark = len(p.reg)
        try:
            v.call(CreoleParser._replace, ps, m)
        except TExc:
            return      # C02
        new = [o for o in p.reg[mark:] if isinstance(o, Obj) and o.cls is DocNode and not o.meta.get('arbitrary')]
        heads = [o for o in new if o.fields.get('kind') == 'header']
        macros = [o for o in new if o.fields.get('kind') in env.MACROS]
        if name == 'block_re':
            v.decide(HEAD, len(heads) == ('head_head' in has), f'{len(heads)} headings of a match of {sorted(x for x in has if x)}')
            for o in heads:
                head = v.interp.call(v.interp.getattr(m, 'group'), ('head_head',), {})
                text = v.interp.call(v.interp.getattr(m, 'group'), ('head_text',), {})
                level = v.interp.getattr(o, 'level')
                if isinstance(level, (int, SI)):
                    v.require(HEAD, models.zint(level) == models.zint(models.length(v.interp, head)), f'the level is {level!r}')
                else:
                    v.decide(HEAD, None, f'the level is {level!r}')
                v.same(HEAD, v.interp.getattr(o, 'content'), models.s_strip(v.interp, p, text) if text != '' else '')
        elif heads:
            v.decide(HEAD, False, f'a heading of {name}')
        for o in macros:
            n = o.fields.get('macro_name')
            if not is_str(n) or ps.fields['root'].fields.get('used_macros') is not used:
                v.decide(MACRO, None, f'{n!r} in {used!r}')
                continue
            start = next((x for x in ('macro_block_start', 'macro_tag_name', 'macro_inline_start') if x in has), None)
            v.decide(MACRO, start is not None and key_of(n) == key_of(v.interp.call(v.interp.getattr(m, 'group'), (start,), {})) or None, f'the name is {n!r}')
            if v.interp.truth(models.eq(v.interp, n, 'toc')):
                new = [concrete.same(p, y, 'toc')[0] for y in used.items if not isinstance(y, Seg)]
                ok = True in new or v.interp.truth(models.contains(v.interp, used, 'toc'))
                v.decide(MACRO, ok or (None if None in new else False), f'toc is not recorded in {used!r}')
    obs = [HEAD, MACRO] if name == 'block_re' else [MACRO]
    pr.verify(f'CreoleParser._replace[{name}{"" if blog else " wiki"}]', run, obs, contracts={CreoleParser.parse_inline: Inline()},
              models=envp.parser_models(), budget=150, hooks={'new': edge.new_hook})


def created(pr):
    """an emitter for a document with a toc macro has a new table of contents, unless the caller has a macro toc"""
    def run(v):
        p = v.path
        em = env.any_emitter(v)
        toc = em.fields.get('toc')
        root = em.fields['root']
        used = v.interp.truth(models.contains(v.interp, v.interp.getattr(root, 'used_macros'), 'toc'))
        own = [t for t in p.trace if t[0] == 'lookup']
        if own:
            return
        v.decide(CREATED, (isinstance(toc, Obj) and toc.cls is TableOfContent) == used, f'{toc!r} for a document {"with" if used else "without"} toc')
    pr.verify('HtmlEmitter.__init__', run, [CREATED], models=env.base_models())
