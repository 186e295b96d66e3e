"""Well-formedness of an HTML fragment given as a rope: a pushdown automaton over the parts."""
from .. import automata as A
from ..explore import lang_of
from ..values import Atom, S, Seg, Unsupported, is_str, parts_of, rope

_no = A.cs_neg(A.cs_chars('<>&"'))
ENT = A.words(('&lt;', '&gt;', '&amp;', '&quot;'))
TEXT_OK = (A.chars(A.cs_neg(A.cs_chars('<>&'))) | ENT).star()
ATTR_OK = (A.chars(_no) | ENT).star()
NAME = A.chars(A.cs_chars('abcdefghijklmnopqrstuvwxyz')) + A.chars_star(A.cs_chars('abcdefghijklmnopqrstuvwxyz0123456789'))
NAMECH = set('abcdefghijklmnopqrstuvwxyz0123456789')
NUM = A.chars_star(A.cs_chars('-0123456789'))
VOID = {'br', 'hr', 'img'}
MARKER = '<<toc>>'


class Judge:
    def __init__(self, marker=False, ok_tags=('frag', 'macro'), extra=None):
        self.marker = marker
        self.ok_tags = set(ok_tags)
        self.extra = extra
        self.cache = {}

    def fragment(self, v, depth=0):
        """(True, '') when the rope is a well-formed fragment"""
        if depth > 20:
            raise Unsupported('nested too deeply')
        if not is_str(v):
            return False, f'not a str: {v!r}'
        st = ['text']
        stack = []
        name = []       # name of the tag that is being read
        attr = None
        kind = None
        parts = list(parts_of(v))
        if self.marker:
            # the placeholder of the table of contents counts as text
            np = []
            for q in parts:
                np.append(q.replace(MARKER, '\0') if isinstance(q, str) else q)
            parts = np
        state = 'text'
        ent = ''
        for q in parts:
            if isinstance(q, Atom):
                if state == 'text':
                    if ent:
                        return False, f'text after an open reference {ent!r}'
                    ok, why = self.text_atom(q, depth)
                    if not ok:
                        return False, why
                elif state in ('tagname', 'endname'):
                    if not (name or q.lang <= NAME):
                        return False, f'tag name starts with {q!r}'
                    if not q.lang <= A.chars_star(A.cs_chars('abcdefghijklmnopqrstuvwxyz0123456789-')):
                        return False, f'unknown text {q!r} in a tag name'
                    name.append(q.rid)
                elif state == 'value':
                    if not self.attr_atom(q):
                        w = (q.lang - ATTR_OK).word()
                        return False, f'{q!r} {q.origin[0]} in an attribute value may be {w!r}'
                else:
                    return False, f'unknown text {q!r} inside a tag ({state})'
                continue
            for ch in q:
                if state == 'text':
                    if ent:
                        ent += ch
                        if ch == ';':
                            if not ENT.has(ent):
                                return False, f'reference {ent}'
                            ent = ''
                        elif not (ch.isalnum() or ch == '#') or len(ent) > 10:
                            return False, f'raw & in text: {ent!r}'
                    elif ch == '<':
                        state = 'open'
                    elif ch == '>':
                        return False, 'raw > in text'
                    elif ch == '&':
                        ent = '&'
                elif state == 'open':
                    if ch == '/':
                        state, name = 'endname', []
                    elif ch in NAMECH and not ch.isdigit():
                        state, name = 'tagname', [ch]
                    else:
                        return False, f'raw < before {ch!r}'
                elif state == 'tagname':
                    if ch in NAMECH:
                        name.append(ch)
                    elif ch == '>':
                        if tuple(name) in {tuple(x) for x in VOID}:
                            return False, 'void element is not closed'
                        stack.append(norm(name))
                        state = 'text'
                    elif ch == ' ':
                        state, attr = 'attrs', ''
                    elif ch == '/':
                        state = 'selfclose'
                    else:
                        return False, f'{ch!r} in a tag name'
                elif state == 'endname':
                    if ch in NAMECH:
                        name.append(ch)
                    elif ch == '>':
                        if not stack:
                            return False, f'end tag {fmt(name)} without a start tag'
                        t = stack.pop()
                        if t != norm(name):
                            return False, f'end tag {fmt(name)} closes {fmt(t)}'
                        state = 'text'
                    else:
                        return False, f'{ch!r} in an end tag'
                elif state == 'attrs':
                    if ch == ' ' and not attr:
                        pass
                    elif ch == '/' and not attr:
                        state = 'selfclose'
                    elif ch == '>' and not attr:
                        stack.append(norm(name))
                        state = 'text'
                    elif ch == '=' and attr:
                        state = 'eq'
                    elif ch in NAMECH or ch == '-':
                        attr += ch
                    else:
                        return False, f'{ch!r} in an attribute name'
                elif state == 'eq':
                    if ch != '"':
                        return False, 'attribute value without double quotes'
                    state = 'value'
                elif state == 'value':
                    if ent:
                        ent += ch
                        if ch == ';':
                            if not ENT.has(ent):
                                return False, f'reference {ent}'
                            ent = ''
                        elif not (ch.isalnum() or ch == '#') or len(ent) > 10:
                            return False, f'raw & in an attribute value: {ent!r}'
                    elif ch == '"':
                        state, attr = 'aftervalue', ''
                    elif ch in '<>':
                        return False, f'raw {ch} in an attribute value'
                    elif ch == '&':
                        ent = '&'
                elif state == 'aftervalue':
                    if ch == ' ':
                        state, attr = 'attrs', ''
                    elif ch == '>':
                        stack.append(norm(name))
                        state = 'text'
                    elif ch == '/':
                        state = 'selfclose'
                    else:
                        return False, f'{ch!r} after an attribute value'
                elif state == 'selfclose':
                    if ch != '>':
                        return False, f'{ch!r} after /'
                    state = 'text'
        if ent:
            return False, f'open reference {ent!r}'
        if state != 'text':
            return False, f'ends inside a tag ({state})'
        if stack:
            return False, f'<{fmt(stack[-1])}> is not closed'
        return True, ''

    def attr_atom(self, q):
        if q.lang <= ATTR_OK:
            return True
        if q.origin[0] in ('lstrip', 'rstrip', 'before', 'after', 'rbefore', 'rafter'):
            return False
        return False

    def text_atom(self, q, depth):
        if q.tags & self.ok_tags:
            return True, ''
        if self.marker and 'marker' in q.tags:
            return True, ''
        if self.extra is not None:
            r = self.extra(self, q, depth)
            if r is not None:
                return r
        if q.lang <= TEXT_OK:
            return True, ''
        o = q.origin
        if o[0] in ('lstrip', 'rstrip') and o[2] is None:
            # whitespace at the edges of a fragment is text of the top level
            return self.fragment(o[1], depth + 1)
        if o[0] == 'acc':
            return self.all(o[1], depth)
        if o[0] in ('join', 'joinl', 'joinr'):
            ok, why = self.fragment(o[1], depth + 1)
            if not ok:
                return ok, why
            return self.all(o[3], depth)
        w = (q.lang - TEXT_OK).word()
        return False, f'unescaped {q!r} ({o[0]}) in text may be {w!r}'

    def all(self, alts, depth):
        for a in alts:
            k = repr(a)
            if k in self.cache:
                continue
            ok, why = self.fragment(a, depth + 1)
            if not ok:
                return ok, why
            self.cache[k] = True
        return True, ''


def norm(name):
    out = []
    for x in name:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return tuple(out)


def fmt(name):
    return ''.join(x if isinstance(x, str) else '?' for x in name)
