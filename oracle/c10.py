"""C10: heading levels and list nesting survive the html converters"""
import re

SHRINK = ('blocks',)
RULE = 'random sequences of headings, paragraphs and nested lists with unique item texts; each marker line is compared with the expected marker; non-trivial: a nested list or two blocks'

UNDER = {1: '=', 2: '-', 3: '=', 4: '-', 5: '`', 6: "'"}


def gen_list(r, d):
    items = []
    for _ in range(r.randint(1, 4)):
        subs = [gen_list(r, d - 1) for _ in range(r.choice([0, 0, 1, 1, 2]))] if d > 0 else []
        items.append([r.choice(['', '', 'b', 'i', 'a', 'img', 'p', 'br', 'code', 'h', 'table']), subs, r.choice(['in', 'in', 'in', 'out'])])
    return [r.choice(['ul', 'ol']), items]


def gen(r):
    blocks = []
    for _ in range(r.randint(1, 5)):
        k = r.random()
        if k < .3:
            blocks.append(['h', r.randint(1, 6), r.choice(['', 'b', 'a', 'amp', 'uml', 'long', 'code', 'img'])])
        elif k < .45:
            blocks.append(['p', r.choice(['', 'b', 'br', 'div', 'table', 'text', 'pre'])])
        else:
            blocks.append(['l', gen_list(r, r.choice([0, 1, 2, 3, 4]))])
    return dict(blocks=blocks, nl=r.random() < .5)


def fixed():
    for n in range(1, 7):
        for k in ('', 'b', 'a', 'amp', 'uml', 'long', 'code'):
            yield dict(blocks=[['h', n, k], ['p', '']], nl=False)
            yield dict(blocks=[['p', ''], ['h', n, k], ['h', 7 - n, k]], nl=True)
    for a in ('ul', 'ol'):
        for b in ('ul', 'ol'):
            for c in ('ul', 'ol'):
                for place in ('in', 'out'):
                    yield dict(blocks=[['l', [a, [['', [[b, [['', [[c, [['', [], 'in']]]], place], ['', [], 'in']]]], place], ['', [], 'in']]]], ['l', [c, [['', [], 'in']]]]], nl=False)
                    yield dict(blocks=[['l', [a, [['', [[b, [['', [], 'in']]], [c, [['', [], 'in']]]], place], ['b', [], 'in']]]], ['p', ''], ['l', [b, [['', [], 'in']]]]], nl=True)
    yield dict(blocks=[['h', i % 6 + 1, ''] for i in range(200)], nl=False)
    yield dict(blocks=[['l', ['ul' if i % 2 else 'ol', [['', [], 'in']] * 3]] for i in range(60)], nl=False)
    yield dict(blocks=[['l', ['ul', [['', [], 'in']] * 200]]], nl=True)


def nontrivial(case):
    return len(case['blocks']) > 1 or (case['blocks'] and case['blocks'][0][0] == 'l')


class Build:
    def __init__(self, case):
        self.n = 0
        self.after_text = False
        self.heads = []   # (level, label)
        self.items = []   # (kinds outermost first, label)
        self.nl = '\n' if case['nl'] else ''
        self.html = ''.join(self.block(b) + self.nl for b in case['blocks'])

    def label(self, p='w'):
        self.n += 1
        return f'{p}{self.n}z'

    def block(self, b):
        after_text, self.after_text = self.after_text, b == ['p', 'text']
        if after_text and b[0] in 'hl':
            b = ['p', '']  # a heading or list directly after text is no block of its own
        if b[0] == 'h':
            lab = self.label('h')
            inner = {'': lab, 'b': f'<b>{lab}</b> x', 'a': f'<a href="/u{lab}">{lab}</a>', 'amp': f'{lab} &amp; &uuml; &#65;', 'uml': f'{lab} ü漢字', 'long': lab + ' xx' * 20, 'code': f'{lab} <i>a</i> <tt>b</tt>', 'img': f'{lab} <img src="/{lab}.png" alt="q">' if False else lab}[b[2]]
            self.heads.append((b[1], lab))
            return f'<h{b[1]}>{inner}</h{b[1]}>'
        if b[0] == 'p':
            lab = self.label('p')
            return {'': f'<p>{lab}</p>', 'b': f'<p><b>{lab}</b></p>', 'br': f'<p>{lab}<br />x</p>', 'div': f'<div>{lab}</div>', 'table': f'<table><tr><td>{lab}</td></tr></table>', 'text': f' {lab} ', 'pre': f'\n<pre>\n{lab}\n</pre>\n'}[b[1]]
        return self.lst(b[1], ())

    def lst(self, li, kinds):
        tag, items = li
        kinds = kinds + (tag,)
        out = f'<{tag}>' + self.nl
        for kind, subs, place in items:
            lab = self.label('i')
            self.items.append((kinds, lab))
            inner = {'': lab, 'b': f'<b>{lab}</b>', 'i': f'{lab} <i>x</i>', 'a': f'{lab} <a href="/u{lab}">l{lab}</a>', 'img': f'{lab}', 'p': f'<p>{lab}</p>', 'br': f'{lab}<br />y', 'code': f'{lab} <tt>x</tt>', 'h': lab, 'table': lab}[kind]
            out += f'<li>{inner}'
            if place == 'in':
                out += ''.join(self.lst(s, kinds) for s in subs) + '</li>'
            else:
                out += '</li>' + ''.join(self.lst(s, kinds) for s in subs)
            out += self.nl
        return out + f'</{tag}>'


def check(case):
    import creole
    b = Build(case)
    try:
        outs = {n: getattr(creole, n)(b.html) for n in ('html2creole', 'html2textile', 'html2markdown', 'html2rest')}
    except Exception as e:
        return f'raised {e!r} for {b.html!r}'
    for name, out in outs.items():
        lines = out.split('\n')

        def find(lab):
            return [i for i, ln in enumerate(lines) if lab in ln]
        for level, lab in b.heads:
            at = find(lab)
            if not at:
                return f'{name}: heading {lab} is missing in {out!r}'
            ln = lines[at[0]]
            if name == 'html2creole':
                ok = re.match(r'=+ ', ln) and re.match(r'=+', ln).group() == '=' * level
            elif name == 'html2markdown':
                ok = re.match(r'#+ ', ln) and re.match(r'#+', ln).group() == '#' * level
            elif name == 'html2textile':
                ok = ln.startswith(f'h{level}. ')
            else:
                under = lines[at[0] + 1] if at[0] + 1 < len(lines) else ''
                over = lines[at[0] - 1] if at[0] else ''
                if at[0] + 1 == len(lines) - 1 or True:
                    ok = under == UNDER[level] * len(ln)
                if level <= 2:
                    ok = ok and over == UNDER[level] * len(ln)
                elif ok:
                    ok = over != UNDER[level] * len(ln)
            if not ok:
                return f'{name}: heading {lab} of level {level} is {ln!r} in {out!r}; html {b.html!r}'
        indents = {}
        for kinds, lab in b.items:
            at = find(lab)
            if not at:
                return f'{name}: list item {lab} is missing in {out!r}'
            ln = lines[at[0]].lstrip(' ')
            marks = ''.join('*' if k == 'ul' else '#' for k in kinds)
            if name in ('html2creole', 'html2textile'):
                ok = ln.startswith(marks + ' ')
            elif name == 'html2rest':
                ok = ln.startswith('* ' if kinds[-1] == 'ul' else '#. ')
            else:
                # <p> in a list item starts a new line
                ok = ln.startswith('* ' if kinds[-1] == 'ul' else '1. ') or (at[0] and lines[at[0] - 1].strip() == ('*' if kinds[-1] == 'ul' else '1.'))
            if not ok:
                return f'{name}: list item {lab} in {kinds} is {lines[at[0]]!r} in {out!r}; html {b.html!r}'
            if name in ('html2rest', 'html2markdown') and re.match(r'(\*|#\.|1\.) ', ln):
                indents.setdefault(len(kinds), set()).add(len(lines[at[0]]) - len(ln))
        for d, got in indents.items():
            if len(got) > 1 or d == 1 and got != {0} or d - 1 in indents and min(got) < max(indents[d - 1]) + 2:
                return f'{name}: the items of depth {d} are indented by {sorted(got)} in {out!r} (all: {indents}); html {b.html!r}'
    return None
