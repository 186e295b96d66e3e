"""macro tables used by the creole oracles"""
import functools
import html


def escape(s):
    return html.escape(s, quote=False)


class Odd(TypeError):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.b = b


EXC = [ValueError('XQ <e>&"'), TypeError('XQ <t>'), Odd('XQ', '<o>'), KeyError('XQ'), AttributeError('XQ'), ZeroDivisionError(), UnicodeDecodeError('utf8', b'x', 0, 1, 'XQ'),
       OSError(2, 'XQ'), StopIteration('XQ'), NotImplementedError(), AssertionError('XQ'), Exception(), LookupError('XQ"'), SyntaxError('XQ'), ImportError('XQ')]
RET = [None, 5, b'<x>', ['<x>'], object(), True, 0, ('a',), {'<': '&'}, 1.5, NotImplemented, ...]


class W:
    def __repr__(self):
        return '<W "&">'


RET.append(W())


def m(*args, text=None, **kw):
    return '<b>' + escape(repr(sorted(kw.items()))) + escape(text or '') + '</b>'


class CallableObj:
    def __call__(self, text=None, a=1):
        return 'ok'


def table(form, e, r, plain_toc=False):
    """form: none, dict, obj;  e/r: index of the exception / return value"""
    if form == 'none':
        return None

    def bad(text=None, **kw):
        raise EXC[e % len(EXC)]

    def none(text=None, **kw):
        return RET[r % len(RET)]

    def strict(text):
        return 'S'

    @functools.wraps(len)
    def wrap(text):
        raise TypeError('XQ')

    def wloop(text):
        raise TypeError('XQ')
    wloop.__wrapped__ = wloop
    nofile = eval(compile('lambda text: int(None)', '<no file>', 'eval'), {'int': int})
    d = dict(wrap=wrap, wloop=wloop, nofile=nofile, m=m, bad=bad, none=none, num=CallableObj(), M2=strict, html=m)
    if plain_toc:
        d['toc'] = m
    if form == 'dict':
        return d

    class Macros:
        pass
    for k, v in d.items():
        setattr(Macros, k, staticmethod(v) if callable(v) else v)
    return Macros() if form == 'obj' else Macros


def options(r):
    return dict(form=r.choice(['none', 'dict', 'dict', 'obj', 'cls']), e=r.randint(0, 99), ret=r.randint(0, 99), blog=r.random() < .6,
                verbose=r.choice([None, 0, 1, 2]), strict=r.random() < .3, plain_toc=r.random() < .1)


class Sink:
    def write(self, s):
        assert isinstance(s, str)


def convert(case):
    from creole import creole2html
    mt = table(case['form'], case['e'], case['ret'], case.get('plain_toc'))
    if isinstance(mt, type):
        if case['form'] == 'cls':  # a class is callable, which creole2html refuses by TypeError
            mt = mt()
    return creole2html(case['src'], blog_line_breaks=case['blog'], macros=mt, verbose=case['verbose'], stderr=Sink(), strict=case['strict'])
