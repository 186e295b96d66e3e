"""C18: rest2html is safe by default and writes clean start tags.

rest2html: docutils is run with the clean writer and with settings in which raw_enabled and file_insertion_enabled are
false unless the caller gives another value. starttag: for every tag name and every attribute list."""
from docutils.core import publish_parts
from docutils.writers import html4css1

from creole.rest_tools import clean_writer as cw

from .. import automata as A
from ..explore import lang_of
from ..values import Obj, Opaque, SDict, Seg, SList, TExc, Unsupported, is_str, parts_of, rope, S

NAMES = ('raw_enabled', 'file_insertion_enabled')
PARAMS = ('source', 'source_path', 'source_class', 'destination_path', 'reader', 'reader_name', 'parser', 'parser_name', 'writer',
          'writer_name', 'settings', 'settings_spec', 'settings_overrides', 'config_section', 'enable_exit_status')
IGNORED = ('class', 'classes', 'start', 'frame', 'rules')
NAME = A.regex(r'[a-z_][a-z0-9_:.-]*', 0)
VALUE = A.regex(r'(?:[^"<>&]|&[a-z]+;|&#[0-9]+;)*', 0)


def prove(pr):
    pr.units([(settings, ()), (starttag, ()), (starttag, ('div',)), (starttag, (None, True))])
    pr.trust('docutils', 'publish_parts runs with settings_overrides; raw_enabled and file_insertion_enabled disable what they name; HTMLTranslator.attval escapes `<`, `>`, `&` and `"`')
    pr.assume('no docutils configuration file changes the settings')
    pr.assume('start tags that docutils writes without starttag are outside the property')


class Kwargs:
    """arbitrary keyword arguments of the caller"""

    def has(self, interp, p, d, k):
        return False if isinstance(k, str) and k in ('content', 'enable_exit_status') else None

    def value(self, interp, p, d, k):
        return p.opaque(f'value of {k}')

    def key(self, interp, p, d):
        return p.atom('option')


class Parts:
    notnone = True

    def getitem(self, interp, p, o, k):
        return p.atom(f'part {k}')


def settings(pr):
    def run(v):
        p = v.path
        kw = p.sdict({}, Kwargs())
        calls = []

        def publish(interp, pp, *args, **kwargs):
            kwargs = {**dict(zip(PARAMS, args)), **kwargs}
            calls.append(kwargs)
            s = kwargs.get('settings_overrides')
            if not isinstance(s, SDict):
                v.require('safe settings', s is not None and not isinstance(s, dict), f'settings_overrides={s!r}')
                raise Unsupported(f'settings {s!r}')
            if kwargs.get('settings') is not None or kwargs.get('settings_spec') is not None:
                raise Unsupported('other settings')
            for n in NAMES:
                given = models.dict_has(interp, kw, n)
                if given:
                    v.decide('the value of the caller', models.dict_has(interp, s, n) and models.dict_get(interp, s, n) is models.dict_get(interp, kw, n), n)
                    continue
                ok = models.dict_has(interp, s, n) and not interp.truth(models.dict_get(interp, s, n))
                v.require('safe settings', ok, f'{n} is {s.d.get(n)!r}')
            w = kwargs.get('writer')
            v.require('the clean writer', isinstance(w, Obj) and issubclass(w.cls, html4css1.Writer) and w.fields.get('translator_class') is cw.CleanHTMLTranslator, f'{w!r}')
            if p.choose(2, 'publish') == 1:
                interp.throw(RuntimeError, 'docutils')
            return p.opaque('parts', Parts())
        v.interp.models = {**v.interp.models, publish_parts: publish}
        content = p.atom('content')
        try:
            v.call(cw.rest2html, content, p.opaque('enable_exit_status'), **{'**': kw})
        except TExc as e:
            v.require('docutils is run', bool(calls), f'{e.cls.__name__} ({v.where()})')
            return
        v.require('docutils is run', len(calls) == 1 and calls[0].get('source') is content, f'{calls!r}')
    pr.verify('rest2html', run, ['safe settings', 'the value of the caller', 'the clean writer', 'docutils is run'],
              models={html4css1.Writer.__init__: lambda i, p, self: None}, budget=150)


class Attributes:
    """arbitrary attributes"""

    def has(self, interp, p, d, k):
        return False if isinstance(k, str) and k in ('node', 'tagname', 'suffix', 'empty', 'self') else None

    def key(self, interp, p, d):
        i = p.choose(2 * len(IGNORED) + 2, 'attribute name')
        if i == 0:
            return p.atom('name', NAME - A.words(IGNORED))
        if i == 1:
            return p.atom('NAME', A.regex(r'[A-Z][A-Z0-9_]*', 0) - A.words(tuple(x.upper() for x in IGNORED)))
        n = IGNORED[(i - 2) // 2]
        return n if i % 2 else n.upper()

    def value(self, interp, p, d, k):
        i = p.choose(3, 'attribute value')
        if i == 0:
            return p.atom('value')
        if i == 1:
            return p.int('value')
        return p.slist([Seg('src', elem=lambda i, pp: pp.atom('word') if pp.choose(2, 'word') == 0 else pp.int('number'), name='words')])


def starttag(pr, tag=None, each=False):
    names = ['no start tag of a div'] if tag == 'div' else ['clean attributes'] if each else ['one clean start tag']

    def attval(interp, p, self, text, *a):
        if not is_str(text):
            raise Unsupported(f'attval of {text!r}')
        return p.derived('attval', [text], VALUE)

    def run(v):
        p = v.path
        t = p.obj(cw.CleanHTMLTranslator, {}, name='translator')
        node = p.opaque('node')
        name = tag or p.atom('tagname', A.regex(r'[a-z][a-z0-9]*', 0) - A.words(('div',)))
        suffix = p.atom('suffix')
        p.extra['attributes'] = kw = p.sdict({}, Attributes())
        empty = p.choose(2, 'empty') == 1
        try:
            r = v.call(cw.CleanHTMLTranslator.starttag, t, node, name, suffix, empty, **{'**': kw})
        except TExc as e:
            return          # nothing is written
        if each:
            return
        if tag == 'div':
            v.require('no start tag of a div', r == '', f'{r!r}')
            return
        if not is_str(r):
            v.require('one clean start tag', False, f'{r!r}')
            return
        ps = list(parts_of(r))
        end = S((ps[-1],)) if ps and not isinstance(ps[-1], str) else ''
        if not (is_str(end) and end != '' and parts_of(end) == parts_of(suffix)):
            v.decide('one clean start tag', None, f'{r!r} does not end with the suffix')
            return
        body = rope(*[x if isinstance(x, str) else S((x,)) for x in ps[:-1]])
        L = A.lit('<') + lang_of(name) + (A.lit(' ') + (NAME - A.words(IGNORED)) + A.lit('="') + VALUE + A.lit('"')).star() + A.lit(' />' if empty else '>')
        v.decide('one clean start tag', lang_of(body) <= L or None, f'{r!r}')

    def iteration(interp):
        p = interp.path
        e = p.extra.get('loop_elem')
        if not each:
            return
        if e is None or not isinstance(e[1], tuple) or len(e[1]) != 2:
            return
        k, x = e[1]
        v = p.run
        for items in (p.extra.get('loop_new') or {}).values():
            items = [y for y in items if not isinstance(y, Seg)]
            low = k.lower() if isinstance(k, str) else None
            if any(not is_str(y) for y in items):
                return
            if low in IGNORED:
                bad = [y for y in items if not (lang_of(y) & (A.ALL + A.lit(low) + A.lit('=') + A.ALL)).empty()]
                v.require('clean attributes', not bad, f'{bad!r} is written for {k!r}')
                continue
            L = (NAME - A.words(IGNORED)) + A.lit('="') + VALUE + A.lit('"')
            for y in items:
                known = all(isinstance(q, str) or q.name in ('value', 'word', 'name', 'NAME') or q.origin[0] in ('attval', 'lower', 'upper') for q in parts_of(y))
                v.decide('clean attributes', lang_of(y) <= L or (False if known else None), f'{y!r} is written for {k!r}')
    pr.verify(f'CleanHTMLTranslator.starttag[{tag or "attributes" if each else tag or "not div"}]', run, names, hooks={'iteration': iteration},
              models={html4css1.HTMLTranslator.attval: attval}, budget=150)


from .. import models  # noqa: E402
