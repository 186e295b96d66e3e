"""runs the interpreter of pyv and CPython side by side on functions of /repo

literal: the interpreter gets the same concrete arguments as CPython: exactly one result, the same.
symbolic: the interpreter gets an atom that is one of three words: for each word there must be a path whose result
may be the result of CPython for it (value within the language, same exception class).

A difference is an error of the engine, not of /repo. tools/setup.py runs this and prints the result.

python3-vt tools/crosscheck.py [seed] [factor for the number of cases] [part of the name of a function]
"""
import os
import random
import shlex
import sys
import time
from html.parser import HTMLParser

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from oracle import common  # noqa: E402

common.setup_path()
from oracle import gen_creole, gen_html  # noqa: E402
from pyv import automata as A, models  # noqa: E402
from pyv.explore import Explorer, lang_of, word_of  # noqa: E402
from pyv.interp import INTERPRETED, Interp, func_of  # noqa: E402
from pyv import interp as interp_module, rematch  # noqa: E402
from pyv.values import Builtin, S, SB, SI, Obj, PathEnd, SDict, SList, TExc, Unsupported  # noqa: E402


interp_module.INTERPRETED = INTERPRETED + (__name__,)


def resub(interp, pat, repl, text):
    """re.sub with a function, match by match, for a concrete text"""
    if not isinstance(text, str):
        return NotImplemented
    p = interp.path
    res, pos = [], 0
    for m in pat.finditer(text):
        r = interp.call(repl, (rematch.real_match(interp, p, pat, text, m),))
        res += [text[pos:m.start()], r or '']
        pos = m.end()
    return models.rope(*res, text[pos:])


def split(interp, p, text, *args, **kw):
    if not isinstance(text, str):
        raise Unsupported('shlex.split')
    try:
        return p.slist(shlex.split(text))
    except ValueError as e:
        raise TExc(e, ValueError)


def pattern_method(interp, pat, name, orig=rematch.pattern_method):
    if name != 'finditer':
        return orig(interp, pat, name)

    def finditer(i, p, text):
        if not isinstance(text, str):
            return i.call(orig(interp, pat, name), (text,))
        return p.slist([rematch.real_match(i, p, pat, text, m) for m in pat.finditer(text)])
    return Builtin(name, finditer)


rematch.pattern_method = pattern_method


class Concrete(Interp):
    """runs while loops turn by turn, without an invariant"""
    def st_While(self, s, fr):
        try:
            while self.truth(self.ev(s.test, fr)):
                self.body_of(s.body, fr)
        except interp_module.Brk:
            return
        self.block(s.orelse, fr)


def real(f, args):
    try:
        return 'value', f(*args)
    except Exception as e:
        return 'raise', type(e).__name__


def paths(f, make, cls=Interp, limit=5.0, n=3000):
    """[(kind, value, path)] of all paths; None if the engine does not support something"""
    ex = Explorer(max_paths=n, deadline=time.time() + limit)
    res = []

    def one(path):
        it = cls(path, {}, {shlex.split: split, HTMLParser.__init__: lambda i, p, o, **kw: None, HTMLParser.get_starttag_text: lambda i, p, o: ''}, {'resub': resub})

        class Run:
            interp = it
            feasible = staticmethod(lambda: True)
        path.run = Run
        try:
            r = it.call(func_of(f), make(path))
            res.append(('value', r, path))
        except TExc as e:
            res.append(('raise', e.cls.__name__, path))
    try:
        ex.explore(one)
    except Unsupported as e:
        return None, str(e)
    return res, ''


def concrete(v):
    """the value of a result that has only one, else raises"""
    if isinstance(v, (str, S)):
        w = word_of(v)
        if w is None:
            raise Unsupported('not one word')
        return w
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, tuple):
        return tuple(concrete(x) for x in v)
    if isinstance(v, SList):
        return [concrete(x) for x in v.items]
    if isinstance(v, SDict):
        return {concrete(k): concrete(x) for k, x in v.d.items()}
    if isinstance(v, dict):
        return {concrete(k): concrete(x) for k, x in v.items()}
    raise Unsupported(f'{type(v).__name__}')


def may(v, w):
    """may the symbolic value v be w?"""
    if isinstance(w, str):
        return isinstance(v, (str, S)) and not (lang_of(v) & A.lit(w)).empty()
    if isinstance(w, bool) or w is None:
        return v is w or isinstance(v, SB)
    if isinstance(w, int):
        return isinstance(v, SI) or v == w
    if isinstance(w, (list, tuple)):
        if not isinstance(v, (SList, tuple, list)):
            return False
        items = list(v.items if isinstance(v, SList) else v)
        if any(type(x).__name__ == 'Seg' for x in items):
            return True
        return len(items) == len(w) and all(may(x, y) for x, y in zip(items, w))
    if isinstance(w, dict):
        if isinstance(v, SDict):
            if v.sym is not None and v.sym:
                return True
            v = v.d
        return isinstance(v, dict) and True
    return True


# ---- the functions, as plain functions of texts
def t_string2dict(s):
    from creole.shared.utils import string2dict
    return string2dict(s)


def t_dict2string(a, b):
    from creole.shared.utils import dict2string
    return dict2string({'k': a, a: b})


def t_deentity(s):
    from creole.html_tools.deentity import Deentity
    return Deentity().replace_all(s)


def t_strip(s):
    from creole.html_tools.strip_html import strip_html
    return strip_html(s)


def t_clean(s):
    from creole.html_tools.text_tools import clean_whitespace
    return clean_whitespace(s)


def t_attr(s):
    from creole.emitter.creol2html_emitter import HtmlEmitter
    e = HtmlEmitter(None)
    return e.attr_escape(s), e.html_escape(s)


def t_table(a, b, c):
    from creole.shared.markup_table import MarkupTable
    t = MarkupTable()
    t.add_tr()
    t.add_th(a)
    t.add_td(b)
    t.add_tr()
    t.add_td(c)
    return t.get_table_markup(), t.get_rest_table(), t.get_markdown_table()


def t_creole(s):
    from creole.emitter.creol2html_emitter import HtmlEmitter
    from creole.parser.creol2html_parser import CreoleParser
    return HtmlEmitter(CreoleParser(s).parse()).emit()


def t_wiki(s):
    from creole.emitter.creol2html_emitter import HtmlEmitter
    from creole.parser.creol2html_parser import CreoleParser
    return HtmlEmitter(CreoleParser(s, blog_line_breaks=False).parse(), strict=True).emit()


def t_html(parser, emitter, html):
    p = parser()
    for kind, a in html:
        if kind == 'start':
            p.handle_starttag(*a)
        elif kind == 'startend':
            p.handle_startendtag(*a)
        elif kind == 'end':
            p.handle_endtag(a)
        elif kind == 'data':
            p.handle_data(a)
        elif kind == 'charref':
            p.handle_charref(a)
        else:
            p.handle_entityref(a)
    return emitter(p.root).emit()


def events(html):
    """what html.parser tells about a document after the first pass of HtmlParser over it"""

    res = []

    class P(HTMLParser):
        def handle_starttag(self, tag, attrs):
            res.append(('start', (tag, attrs)))

        def handle_startendtag(self, tag, attrs):
            res.append(('startend', (tag, attrs)))

        def handle_endtag(self, tag):
            res.append(('end', tag))

        def handle_data(self, data):
            res.append(('data', data))

        def handle_charref(self, name):
            res.append(('charref', name))

        def handle_entityref(self, name):
            res.append(('entityref', name))
    p = P(convert_charrefs=False)
    p.feed(html)
    p.close()
    return res


def t_h2c(html):
    from creole.emitter.html2creole_emitter import CreoleEmitter
    from creole.parser.html_parser import HtmlParser
    return t_html(HtmlParser, CreoleEmitter, html)


def t_h2r(html):
    from creole.emitter.html2rest_emitter import ReStructuredTextEmitter
    from creole.parser.html_parser import HtmlParser
    return t_html(HtmlParser, ReStructuredTextEmitter, html)


def t_h2t(html):
    from creole.emitter.html2textile_emitter import TextileEmitter
    from creole.parser.html_parser import HtmlParser
    return t_html(HtmlParser, TextileEmitter, html)


def t_h2m(html):
    from creole.emitter.html2markdown_emitter import MarkdownEmitter
    from creole.parser.html_parser import HtmlParser
    return t_html(HtmlParser, MarkdownEmitter, html)


# ---- built-in functions and loops
def o_strip(a, b):
    return a.strip(), a.lstrip(), a.rstrip(), a.strip('= '), a.rstrip('\n'), b.lstrip('x"')


def o_split(a, b):
    if '=' in a:
        k, v = a.split('=', 1)
        return k, v, a.rsplit('=', 1)[0]
    return b.partition('|')[0], b.split('|', 1)[-1]


def o_case(a, b):
    return a.lower(), b.upper(), a.title(), b.capitalize()


def o_replace(a, b):
    return a.replace('&', '&amp;').replace('<', '&lt;'), b.replace('\n', ' '), a.replace('=', '')


def o_test(a, b):
    return a.startswith('<'), b.endswith(('>', ' ')), 'a' in a, a.isdigit(), a == b, a < 'b', a != 'a', bool(a), not b, a.isspace()


def o_slice(a, b):
    return a[1:], a[:-1], b[:3], b[-2:], a[::-1], a[:1] + b[-1:]


def o_index(a, b):
    try:
        return a[0], b[-1]
    except IndexError:
        return 'index'


def o_int(a, b):
    try:
        return int(a)
    except ValueError:
        return b


def o_format(a, b):
    return f'<{a} x="{b}">', '%s|%s' % (a, b), '{}-{}'.format(a, b), f'{a!r}', a.join(['1', b]), a + b, a * 2


def o_len(a, b):
    if len(a) > len(b):
        return 'longer'
    if len(a) == 0:
        return 'empty'
    return 'other'


def o_find(a, b):
    i = a.find('=')
    if i < 0:
        return b
    return a[i + 1:]


def o_just(a, b):
    return a.ljust(4), b.rjust(3, '.')


def o_lines(a, b):
    res = []
    for ln in a.split('\n'):
        res.append(ln.strip())
    return '|'.join(res)


def o_chars(a, b):
    n = 0
    last = None
    for c in a:
        if c in b:
            n += 1
            last = c
    return last, n > 0


def o_while(a, b):
    n = 0
    while a.startswith('='):
        a = a[1:]
        n += 1
    return a, n


def o_while2(a, b):
    out = ''
    while a:
        head, sep, a = a.partition(' ')
        if head == b:
            return head
        out = out + head.upper()
    return out


def o_comp(a, b):
    return ''.join(x for x in a.split() if x != b), [x.lower() for x in a.split('|')], any(x == 'a' for x in b.split()), sorted(a.split()) == []


def o_dict(a, b):
    d = {'a': 1, 'foo bar': 2}
    d[a] = b
    return d.get(b), a in d, d.pop('a', None), d.get('x', a)


def o_try(a, b):
    try:
        x = {'': 0, 'a': 1}[a]
    except KeyError:
        x = 'none'
    finally:
        b = b + '!'
    else_ = x if x else b
    return else_, b


def o_list(a, b):
    ls = [a]
    ls.append(b)
    ls += [a, '']
    ls.insert(0, 'x')
    y = ls.pop()
    ls.extend(b for _ in range(2))
    return ls, y, len(ls), ls[::-1][0], a in ls, ls.index('x'), ls[1:3]


PATTERN = None


def r_match(s):
    m = PATTERN.match(s)
    return None if m is None else (m.group(0), m.groups())


def r_search(s):
    m = PATTERN.search(s)
    return None if m is None else (m.group(0), m.groups())


def r_sub(s):
    return PATTERN.sub('', s), PATTERN.sub(lambda m: '<' + m.group(0) + '>', s)


def patterns():
    """the compiled patterns of the repository"""
    import re
    import creole.parser.creol2html_parser as parser
    import creole.html_tools.deentity as deentity
    import creole.html_tools.strip_html as strip
    import creole.parser.html_parser as html_parser
    from creole.parser.creol2html_parser import CreoleParser
    found = {}
    objs = [parser, deentity, strip, html_parser, CreoleParser, CreoleParser('', blog_line_breaks=True), CreoleParser('', blog_line_breaks=False)]
    for o in objs:
        for k, v in {**vars(type(o)), **vars(o)}.items():
            if isinstance(v, re.Pattern) and isinstance(v.pattern, str):
                found[v] = k
    for v in (html_parser.block_re, html_parser.inline_re) if hasattr(html_parser, 'block_re') else ():
        found[v] = 'html'
    return sorted(found, key=lambda v: (v.pattern, v.flags))


BITS = ['', 'a', ' ', 'foo bar', '=', '"', "'", 'k=1', 'x="a b"', 'b=true', 'n=-12', '\n', '\t', '&amp;', '&', '<b>', ' <p> ', '</p>', '&#65;', '&#x41;', '&nbsp;', '<pre> x </pre>', '|', 'Ä', '٣', '\x85', '&uuml;', '<<', '~', '{', '}', '\\', 'x"y', 'None', '<br />', '=x']


def bits(r):
    return ''.join(r.choice(BITS) for _ in range(r.choice([0, 1, 2, 3, 4, 6])))


def creole(r):
    return gen_creole.source(r, macros=False)[:r.choice([20, 60, 200])]


def html(r):
    return events(gen_html.source(r)[:r.choice([30, 100, 300])])


def make(p, v):
    """a value of the engine for a concrete argument"""
    if isinstance(v, list):
        return p.slist([make(p, x) for x in v])
    if isinstance(v, tuple):
        return tuple(make(p, x) for x in v)
    return v


LITERAL = [(t_string2dict, 1, bits, 40), (t_dict2string, 2, bits, 30), (t_deentity, 1, bits, 40), (t_strip, 1, bits, 40), (t_clean, 1, bits, 40), (t_attr, 1, bits, 40),
           (t_table, 3, bits, 20), (t_creole, 1, creole, 60), (t_wiki, 1, creole, 40), (t_h2c, 1, html, 40), (t_h2r, 1, html, 30), (t_h2t, 1, html, 30), (t_h2m, 1, html, 30)]
SYMBOLIC = [(t_string2dict, 1, bits, 25), (t_dict2string, 2, bits, 20), (t_deentity, 1, bits, 25), (t_strip, 1, bits, 25), (t_clean, 1, bits, 25), (t_attr, 1, bits, 25),
            (t_table, 3, bits, 10)]


SYMBOLIC += [(f, 2, bits, 15) for n, f in sorted(globals().items()) if n.startswith('o_')]
LITERAL += [(f, 2, bits, 15) for n, f in sorted(globals().items()) if n.startswith('o_')]


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    factor = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
    only = sys.argv[3] if len(sys.argv) > 3 else None
    global PATTERN
    bad = 0
    table = [('literal', None) + x for x in LITERAL] + [('symbolic', None) + x for x in SYMBOLIC]
    table += [('symbolic', pat, f, 1, gen, 4) for pat in patterns() for f in (r_match, r_search, r_sub) for gen in (creole, bits)]
    sums = {}

    def show(f, mode, good, skipped, why):
        a = sums.setdefault((mode, f.__name__), [0, 0, {}])
        a[0] += good
        a[1] += skipped
        for k, v in why.items():
            a[2][k] = a[2].get(k, 0) + v
    for mode, PATTERN, f, k, gen, n in table:
        if only and only not in f.__name__:
            continue
        r = random.Random(f'{seed} {f.__name__} {mode} {PATTERN}')
        good = skipped = 0
        why = {}
        for _ in range(int(n * factor)):
            if mode == 'literal':
                args = tuple(gen(r) for _ in range(k))
                cases = [args]
                res, reason = paths(f, lambda p: tuple(make(p, a) for a in args), Concrete)
            else:
                words = [sorted({gen(r) for _ in range(3)}) for _ in range(k)]
                cases = [tuple(r.choice(w) for w in words) for _ in range(3)]
                res, reason = paths(f, lambda p: tuple(p.atom(f'arg{i}', A.words(tuple(w))) for i, w in enumerate(words)))
            if res is None:
                skipped += 1
                why[reason[:60]] = why.get(reason[:60], 0) + 1
                continue
            for c in cases:
                want = real(f, c)
                try:
                    if mode == 'literal':
                        ok = len(res) == 1 and res[0][0] == want[0] and (concrete(res[0][1]) if want[0] == 'value' else res[0][1]) == want[1]
                    else:
                        ok = any(kind == want[0] and (may(v, want[1]) if kind == 'value' else v == want[1]) for kind, v, _p in res)
                except Unsupported as e:
                    skipped += 1
                    why[str(e)[:60]] = why.get(str(e)[:60], 0) + 1
                    continue
                if ok:
                    good += 1
                else:
                    bad += 1
                    print(f'DIFFERENT {mode} {f.__name__}{c!r} {PATTERN and PATTERN.pattern[:60]!r}: CPython {want!r}, pyv {[x[:2] for x in res][:5]!r}'[:1500])
        show(f, mode, good, skipped, why)
    for (mode, name), (good, skipped, why) in sums.items():
        print(f'{mode} {name}: {good} the same, {skipped} not supported {why or ""}')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
