"""C11: rendered tables are rectangular and lose no cell.

The table is arbitrary, with one row at an arbitrary place and in it one cell at an arbitrary place: what holds for
this cell holds for every cell.  _get_preformat_info() is verified against a contract (the lines have the same number of
cells, the cells keep their text and their places, no cell is wider than its column), the renderings use it."""
import z3

from creole.shared.markup_table import MarkupTable

from .. import automata as A
from .. import models
from ..explore import lang_of
from ..loops import seg_elem
from ..values import S, SI, Atom, Obj, PathEnd, Seg, SList, TExc, Unsupported, atom_of, is_str, key_of, parts_of, rope
from . import c09
from . import env_html as env

NOTHING = 'raises nothing'
ROWS = 'one line for every row, in order'
PLACE = 'a cell keeps its place, nothing is left out or added before it'
KEPT = 'a cell keeps its text, except for whitespace around it'
LENGTH = 'every line has the same number of cells'
FILL = 'empty cells only are added to a row, at its end'
WIDTH = 'no cell is wider than its column'
ONE = 'the text of a cell is one line'
BARS = 'a line starts and ends with a bar, bars separate the cells'
PADDED = 'every cell is as wide as its column'
RULES = 'separator lines are as wide as the columns'
LINE = A.chars_star(A.cs_neg(A.cs_chars('\n')))
RENDER = ('get_table_markup', 'get_rest_table', 'get_markdown_table')
SPACES = A.chars_star(A.cs_chars(' '))


def prove(pr):
    pr.units([(preformat, ())] + [(render, (n, auto, filled)) for n in RENDER for auto in (True, False) for filled in (False, True)
                                  if auto or n == 'get_table_markup' and not filled] + [(adding, ('add_tr',)), (adding, ('add_td',)), (adding, ('add_th',))]
             + [(cell_text, (which, kind)) for which in env.EMITTERS for kind in ('td', 'th')])
    pr.assume('lemma: lines with the same number of cells between their bars, where cell j has the width of column j, are equally long')
    pr.trust('str.ljust, str.join, zip, max, map', 'as documented (pyv/models.py)')


def cells(p, name):
    return Seg('src', elem=lambda i, q: q.atom('cell', LINE), name=name)


def table(p):
    t = env.any_table(p)
    cell = p.atom('the_cell', LINE)
    left, right = cells(p, 'left'), cells(p, 'right')
    row = p.slist([left, cell, right])
    above, below = (Seg('src', elem=lambda i, q: q.slist([cells(q, 'other')]), name=n) for n in ('above', 'below'))
    t.fields['head_prefix'] = p.atom('head_prefix', LINE)
    t.fields['rows'] = p.slist([above, row, below])
    t.fields['row_index'] = models.mkint(models.zint(models.length(p.run.interp, t.fields['rows'])) - 1)
    t.meta['shape'] = dict(above=above, left=left, cell=cell, right=right, below=below)
    return t


def size(p, items):
    return models.sum_len(p, list(items))


def source(x):
    """the segment of the table that the items of x were made of, one for one"""
    while isinstance(x, Seg) and x.src is not None and x.src[0] in ('map', 'each', 'zip1'):
        if x.src[0] == 'map' and not all(len(a) == 1 and not isinstance(a[0], Seg) for a in x.alts):
            return None
        x = x.src[1]
    return x


def strip(v, s):
    return v.call(v.interp.getattr(s, 'strip'))


def preformat(pr):
    obs = [NOTHING, ROWS, PLACE, KEPT, LENGTH, FILL, WIDTH]

    def run(v):
        p = v.path
        t = table(p)
        h = t.meta['shape']
        try:
            r = v.call(MarkupTable._get_preformat_info, t)
        except TExc as e:
            v.require(NOTHING, False, f'{e.cls} ({v.where()})')
            return
        v.require(NOTHING, True)
        if not (isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, SList) for x in r)):
            raise Unsupported(f'another result: {r!r}')
        lines, widths = r
        at = [i for i, x in enumerate(lines.items) if isinstance(x, SList)]
        if len(at) != 1:
            raise Unsupported('the lines are not there one by one')
        before, line, after = lines.items[:at[0]], lines.items[at[0]], lines.items[at[0] + 1:]
        v.decide(ROWS, [source(x) for x in before] == [h['above']] and [source(x) for x in after] == [h['below']] or None, f'{lines!r}')
        # the place of the cell
        at = [i for i, x in enumerate(line.items) if not isinstance(x, Seg)]
        if len(at) != 1:
            lost = not at and all(source(x) in (h['left'], h['right']) or x.name == 'repeat' for x in line.items)
            v.decide(PLACE, False if lost else None, f'{line!r}')
            raise Unsupported('the cells are not there one by one')
        k = at[0]
        first = [source(x) for x in line.items[:k]]
        rest = line.items[k + 1:]
        v.decide(PLACE, first == [h['left']] and rest and source(rest[0]) is h['right'] or (False if first == [h['right']] else None), f'{line!r}')
        core = line.items[k]
        if not is_str(core):
            v.decide(KEPT, False, f'{core!r}')
            return
        v.same(KEPT, strip(v, core), strip(v, h['cell']), f'{core!r} for {h["cell"]!r}')
        # columns
        n = size(p, line.items)
        v.decide(WIDTH, p.entails(size(p, widths.items) == n) or None, f'{widths!r}')
        j = next((i for i, x in enumerate(widths.items) if not isinstance(x, Seg) and p.entails(size(p, widths.items[:i]) == size(p, line.items[:k]))), None)
        if j is None or not isinstance(widths.items[j], (int, SI)):
            v.decide(WIDTH, None, f'{widths!r}')
            return
        v.require(WIDTH, models.zint(widths.items[j]) >= models.zint(models.length(v.interp, core)), f'{core!r}')
        # one of the other things to look at
        c = p.choose(4, 'look at')
        if c < 2:
            x = (before, after)[c]
            if len(x) == 1 and isinstance(x[0], Seg):
                e = seg_elem(v.interp, x[0])
                v.require(LENGTH, isinstance(e, SList) and size(p, e.items) == n, f'{e!r}')
        elif c == 2:
            fill = rest[1:]
            if fill:
                e = models.some_item(v.interp, p, fill)
                v.decide(FILL, True if e == '' and isinstance(e, str) else None, f'{e!r}')
        else:
            more = widths.items[j + 1:]
            if more:
                w = models.some_item(v.interp, p, more)
                v.require(WIDTH, models.zint(w) >= 0, f'{w!r}')
        v.decide(FILL, len(rest) <= 2 or None, f'{line!r}')
    pr.verify('MarkupTable._get_preformat_info', run, obs, hooks={'facts': True})


class Preformatted:
    """contract of _get_preformat_info (discharged by the unit above)"""

    def __init__(self, filled):
        self.filled = filled    # the place is one of the empty cells at the end of the row

    def apply(self, interp, p, args, kwargs):
        t = args[0]
        h = t.meta.get('shape') if hasattr(t, 'meta') else None
        if h is None or kwargs:
            return NotImplemented
        nl, nr = (models.zint(models.seg_len(p, h[x])) for x in ('left', 'right'))
        lo = models.mkint(nl) if not self.filled else models.mkint(nl + nr + 1 + models.zint(p.int('n', 0)))
        hi = models.mkint(nr + models.zint(p.int('n', 0))) if not self.filled else p.int('n', 0)

        def seg(name, elem, n, src=None):
            x = Seg('src', elem=elem, name=name, src=src)
            x.n = (p, n)
            return x

        def line(i, q):
            x = Seg('src', elem=lambda i, q: q.atom('cell', LINE), name='cells')
            n = q.int('n', 0)
            x.n = (q, n)
            q.assume(n.e == models.zint(lo) + models.zint(hi) + 1)
            return q.slist([x])
        core = '' if self.filled else p.atom('the_core', LINE, ('core', h['cell']))
        text = [seg(n, lambda i, q: q.atom('cell', LINE), k) for n, k in (('cells before', lo), ('cells after', hi))]
        width = [seg(n, lambda i, q: q.int('width', 0), k) for n, k in (('widths before', lo), ('widths after', hi))]
        w = p.int('the_width', 0)
        p.assume(w.e >= models.zint(models.length(interp, core)))
        h.update(core=core, width=w, lo=lo, hi=hi)
        lines = [seg(n, line, models.seg_len(p, h[n]), ('zip1', h[n])) for n in ('above', 'below')]
        return (p.slist([lines[0], p.slist([text[0], core, text[1]]), lines[1]]), p.slist([width[0], w, width[1]]))


def render(pr, name, auto, filled):
    label = f'MarkupTable.{name}' + ('' if name != 'get_table_markup' else ' (aligned)' if auto else ' (not aligned)') + (', empty cells at the end' if filled else '')
    obs = [NOTHING, ROWS, PLACE, KEPT, BARS] + ([PADDED] if auto else []) + ([RULES] if name == 'get_rest_table' else [])

    def run(v):
        p = v.path
        t = table(p)
        h = t.meta['shape']
        t.fields['auto_width'] = auto
        try:
            r = v.call(getattr(MarkupTable, name), t)
        except TExc as e:
            v.require(NOTHING, False, f'{e.cls} ({v.where()})')
            return
        v.require(NOTHING, True)
        if not is_str(r):
            v.decide(ROWS, False, f'{r!r} is no text')
            return
        if not auto:
            h.update(core=h['cell'], width=None, lo=models.mkint(models.zint(models.seg_len(p, h['left']))), hi=models.mkint(models.zint(models.seg_len(p, h['right']))))
        if 'core' not in h:
            raise Unsupported('the table is rendered in another way')
        lines = split_lines(r)
        # lines of the other rows
        at = {n: [i for i, x in enumerate(lines) if isinstance(x, Atom) and rows_of(x.origin[2]) is h[n]] for n in ('above', 'below')}
        others = [x for x in lines if isinstance(x, Atom)]
        mine = [(i, x) for i, x in enumerate(lines) if not isinstance(x, Atom)]
        rows = [(i, x) for i, x in mine if x and isinstance(x[0], str) and x[0].startswith('|') and not rule(x)]
        rules = [(i, x) for i, x in mine if (i, x) not in rows]
        good = len(at['above']) == len(at['below']) == 1 and len(others) == 2 and len(rows) == 1 and at['above'][0] < rows[0][0] < at['below'][0]
        v.decide(ROWS, good and all(rule(x) for _i, x in rules) or None, f'{lines!r}')
        if len(rows) != 1:
            raise Unsupported('the line of the row was not found')
        items = row_items(rows[0][1], '|')
        v.decide(BARS, items is not None or None, f'{rows[0][1]!r}')
        if items is None:
            return
        before, item, after = items
        v.require(PLACE, z3.And(count(p, before) == models.zint(h['lo']), count(p, after) == models.zint(h['hi'])), f'{rows[0][1]!r}')
        v.decide(KEPT, padded(item, h['core']) if auto else key_of(item) == key_of(h['core']) or None, f'{item!r} for {h["core"]!r}')
        if auto:
            v.require(PADDED, models.zint(models.length(v.interp, item)) == h['width'].e, f'{item!r}')
        if name == 'get_rest_table':
            near = [i for i, _x in rules]
            v.decide(RULES, rows[0][0] - 1 in near and lines and not isinstance(lines[-1], Atom) and len(lines) - 1 in near or None, f'{lines!r}')
            for _i, x in rules:
                its = row_items(x, '+')
                if its is None:
                    v.decide(RULES, None, f'{x!r}')
                    continue
                v.require(RULES, z3.And(count(p, its[0]) == models.zint(h['lo']), count(p, its[2]) == models.zint(h['hi']),
                                        models.zint(models.length(v.interp, its[1])) == h['width'].e), f'{x!r}')
                v.decide(RULES, any(lang_of(its[1]) <= A.chars_star(A.cs_chars(ch)) for ch in '-=') or None, f'{x!r}')
    real = getattr(MarkupTable, '_get_preformat_info', None)
    pr.verify(label, run, obs, contracts={real: Preformatted(filled)} if real else {}, hooks={'facts': True})


def split_lines(r):
    """[the parts of a line | the atom with the lines of the rows of a segment]"""
    out = [[]]
    for x in parts_of(r):
        if isinstance(x, str):
            for i, y in enumerate(x.split('\n')):
                if i:
                    out.append([])
                if y:
                    out[-1].append(y)
        elif x.origin[0] in ('join', 'joinl', 'joinr') and x.origin[1] == '\n':
            # the line feeds before or after it belong to it
            out += [x, []]
        else:
            out[-1].append(x)
    return [x for x in out if x != []]


def rows_of(seg):
    """the segment of rows, if each of them gives one line and separator lines"""
    if seg.kind != 'loop' or seg.src is None or seg.src[0] != 'map':
        return None
    for alt in seg.alts:
        if not all(is_str(x) for x in alt) or sum(not rule(parts_of(x)) for x in alt) != 1:
            return None
    base = seg.src[1]
    return base.src[1] if base.src is not None and base.src[0] in ('zip1', 'map') else base


def rule(parts):
    """a separator line: nothing but +, -, =, | and space"""
    chars = A.chars_star(A.cs_chars('+-=| '))
    return all(A.lit(x) <= chars if isinstance(x, str) else x.lang <= chars if not x.origin[0].startswith('join') else all(y == '' or lang_of(y) <= chars for y in x.origin[3])
               for x in parts) and any(not isinstance(x, str) for x in parts)


def row_items(parts, bar):
    """a line as (atoms of the cells before, the cell, atoms of the cells after), None if it is not bar cell bar cell ... bar"""
    parts = list(parts)
    if len(parts) < 2 or not isinstance(parts[0], str) or not isinstance(parts[-1], str) or not parts[0].startswith(bar) or not parts[-1].endswith(bar):
        return None
    parts[0] = parts[0][1:]
    parts[-1] = parts[-1][:-1]
    joins = [i for i, x in enumerate(parts) if isinstance(x, Atom) and x.origin[0] in ('joinl', 'joinr')]
    if any(isinstance(x, Atom) and x.origin[0] == 'join' for x in parts) or any(parts[i].origin[1] != bar for i in joins):
        return None
    l = [i for i in joins if parts[i].origin[0] == 'joinl']
    r = [i for i in joins if parts[i].origin[0] == 'joinr']
    a, b = max(l, default=-1), min(r, default=len(parts))
    if any(parts[:a + 1][i] for i in range(a + 1) if i not in l) or any(parts[i] for i in range(b, len(parts)) if i not in r):
        return None
    return [parts[i] for i in l], rope(*[x if isinstance(x, str) else S((x,)) for x in parts[a + 1:b]]), [parts[i] for i in r]


def count(p, atoms):
    return size(p, [a.origin[2] for a in atoms])


def padded(item, core):
    """core with spaces around it"""
    ps, cs = [x for x in parts_of(item) if x != ''], [x for x in parts_of(core) if x != '']
    for i in range(len(ps) - len(cs) + 1):
        if all(a is b or a == b for a, b in zip(ps[i:i + len(cs)], cs)):
            other = ps[:i] + ps[i + len(cs):]
            if all((A.lit(x) if isinstance(x, str) else x.lang) <= SPACES for x in other):
                return True
    return None


def adding(pr, name):
    ADDED = {'add_tr': 'an empty row is added at the end', 'add_td': 'the text is added at the end of the last row', 'add_th': 'the text is added at the end of the last row, with the prefix'}[name]
    KEEP = 'all other cells stay as they are'
    NEXT = 'the cell that comes next is added at the end of the last row'
    obs = [NOTHING, ADDED, KEEP, NEXT]

    def run(v):
        p = v.path
        t = env.any_table(p)
        old = list(t.fields['rows'].items)
        inner = [list(x.items) if isinstance(x, SList) else None for x in old]
        text = p.atom('text')
        prefix = t.fields['head_prefix']
        try:
            v.call(getattr(MarkupTable, name), t, *([] if name == 'add_tr' else [text]))
        except TExc as e:
            v.require(NOTHING, False, f'{e.cls} ({v.where()})')
            return
        v.require(NOTHING, True)
        new = t.fields['rows']
        if not isinstance(new, SList):
            raise Unsupported(f'{new!r}')
        now = list(new.items)
        if name == 'add_tr' or not old:
            k = len(old)
        else:
            k = len(old) - 1
        v.decide(KEEP, len(now) >= len(old) and all(a is b for a, b in zip(old, now)) and all(i is None or list(x.items) == i for x, i in list(zip(now, inner))[:k]), f'{now!r} instead of {old!r}')
        want = [] if name == 'add_tr' else [text] if name == 'add_td' else [rope(prefix, text)]
        had = inner[k] if k < len(inner) else []
        if len(now) != k + 1 or not isinstance(now[k], SList):
            v.decide(ADDED, False if len(now) != k + 1 else None, f'{now!r} instead of {old!r}')
            return
        got = now[k].items
        same = len(got) == len(had) + len(want) and all(a is b for a, b in zip(had, got)) and all(is_str(a) and key_of(a) == key_of(b) for a, b in zip(got[len(had):], want))
        if same or len(got) != len(had) + 1 or not want or not is_str(got[-1]):
            v.decide(ADDED, same, f'{got!r} instead of {had + want!r}')
        else:
            v.same(ADDED, got[-1], want[0])
        # and the row that is the last one now takes the next cell
        had, text = list(got), p.atom('next')
        try:
            v.call(MarkupTable.add_td, t, text)
        except TExc as e:
            v.require(NEXT, False, f'{e.cls} ({v.where()})')
            return
        new = t.fields['rows']
        then = list(new.items) if isinstance(new, SList) else None
        if then is None or not all(isinstance(x, (SList, Seg)) for x in then):
            raise Unsupported(f'{new!r}')
        got = then[k].items if len(then) > k and isinstance(then[k], SList) else None
        v.decide(NEXT, len(then) == len(now) and got is not None and len(got) == len(had) + 1 and all(a is b for a, b in zip(had, got)) and is_str(got[-1]) and key_of(got[-1]) == key_of(text), f'{then!r}')
    pr.verify(f'MarkupTable.{name}', run, obs)


def cell_text(pr, which, kind):
    """what the emitters put into the cells of a table"""
    cls = env.EMITTERS[which]

    def run(v):
        p = v.path
        em = env.any_emitter(v, which, debug=False)
        node = env.arb(p, kind=kind)
        p.extra['first_node'] = node
        p.extra['void'] = True
        t = em.fields.get('_table')
        if isinstance(t, Obj):
            t.fields['head_prefix'] = p.atom('head_prefix', LINE)
        mark = len(p.log)
        try:
            v.interp.call(v.interp.getattr(em, 'emit_node'), (node,), {})
        except TExc:
            return      # C08
        v.decide(ONE, True)
        if not isinstance(t, Obj):
            return
        rows = t.fields['rows']
        if not isinstance(rows, SList) or any(ent[0] == 'r' and ent[1] is t for ent in p.log[mark:]) and isinstance(t.fields['rows'], Seg):
            raise Unsupported(f'{rows!r}')
        new, clean = c09.appended(p, mark)
        for lst, x in new:
            if any(lst is row for row in rows.items):
                if not is_str(x):
                    v.decide(ONE, None, f'{x!r}')
                elif lang_of(x) <= LINE:
                    v.decide(ONE, True)
                else:
                    v.same(ONE, x, v.call(v.interp.getattr(x, 'replace'), '\n', ' '))
        if not clean:
            v.decide(ONE, None, 'a list is changed in another way')
    pr.verify(f'{cls.__name__}.emit_node[{kind}]', run, [ONE], models=env.base_models(), contracts=env.base_contracts() | {cls.emit_node: env.EmitNode()}, budget=120, hooks={'new': env.new_object})
