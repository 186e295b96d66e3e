"""Files as ghost state: every operation on files that the code performs is a transition of World; every step that can
fail forks into a failing path. Contents are terms: an unknown content, or the encoding of a text."""
import codecs
import io
import os
import pathlib

from .. import automata as A
from ..explore import lang_of
from ..values import Builtin, Opaque, S, Unsupported, is_str, key_of, rope

NO_CR = A.chars_star(A.cs_neg(A.cs_chars('\r')))


def norm(enc):
    if enc is None:
        return 'locale'
    if isinstance(enc, str):
        try:
            return codecs.lookup(enc).name
        except LookupError:
            return enc
    return key_of(enc)


class Bytes:
    notnone = True

    def __init__(self, term):
        self.term = term        # ('file', name) | ('text', rope, encoding key)

    def getattr(self, interp, p, o, name, default):
        if name == 'decode':
            return Builtin(name, lambda i, pp, encoding='utf-8', errors='strict': decode(i, pp, o, encoding, errors))
        raise Unsupported(f'bytes.{name}')

    def truth(self, interp, p, o):
        if self.term == ('concrete', b''):
            return False
        return p.choose(2, 'no bytes') == 0


class World:
    def __init__(self, p):
        self.p = p
        self.names = {}         # key of a path -> name of the file
        self.files = {}         # name -> Opaque(Bytes) | list of written pieces
        self.log = []           # ('open', name, mode), ('fail', step)
        p.extra['world'] = self

    def name(self, path):
        if isinstance(path, Opaque) and isinstance(path.spec, Path):
            path = path.spec.key
        if not is_str(path):
            raise Unsupported(f'a file {path!r}')
        k = key_of(path)
        if k not in self.names:
            self.names[k] = k
        return self.names[k]

    def put(self, path, name):
        self.names[key_of(path)] = name
        self.files[name] = bytes_of(self.p, ('file', name))

    def content(self, name):
        """the content as one term"""
        c = self.files.get(name)
        if not isinstance(c, list):
            return c
        if not c:
            return bytes_of(self.p, ('concrete', b''))
        encs = {e for e, x in c}
        if None in encs:
            if len(c) == 1:
                return c[0][1]
            return self.p.opaque('bytes', Bytes(('concat', tuple(x for e, x in c))))
        if len(encs) == 1:
            return bytes_of(self.p, ('text', rope(*[x for e, x in c]), c[0][0]))
        return self.p.opaque('bytes', Bytes(('mixed',)))

    def fail(self, step):
        self.log.append(('fail', step))
        self.p.trace.append(('fail', step))

    def failures(self):
        return [x[1] for x in self.log if x[0] == 'fail']


def bytes_of(p, term):
    k = ('bytes', key_of(term[1:]) if term[0] != 'text' else (key_of(term[1]), term[2]), term[0])
    if k not in p.memo:
        p.memo[k] = p.opaque('bytes', Bytes(term))
    return p.memo[k]


def world(p):
    w = p.extra.get('world')
    if w is None:
        raise Unsupported('a file operation')
    return w


def known_codec(interp, p, enc):
    if enc is None:
        return
    w = world(p)
    if isinstance(enc, str):
        try:
            codecs.lookup(enc)
        except LookupError:
            w.fail('codec')
            interp.throw(LookupError, 'unknown encoding')
        return
    if not is_str(enc):
        raise Unsupported('encoding')
    k = ('codec', key_of(enc))
    if k not in p.memo:
        p.memo[k] = p.choose(2, 'unknown encoding') == 0
    if not p.memo[k]:
        w.fail('codec')
        interp.throw(LookupError, 'unknown encoding')


def decode(interp, p, b, enc='utf-8', errors='strict'):
    if not (isinstance(b, Opaque) and isinstance(b.spec, Bytes)):
        raise Unsupported(f'decode of {b!r}')
    w = world(p)
    known_codec(interp, p, enc)
    t = b.spec.term
    if t[0] == 'text' and t[2] == norm(enc):
        return t[1]
    if t == ('concrete', b''):
        return ''
    k = ('decodable', b.rid, norm(enc))
    if k not in p.memo:
        p.memo[k] = p.choose(2, 'undecodable') == 0
    if not p.memo[k]:
        w.fail('decode')
        if errors in ('strict', None):
            interp.throw(UnicodeDecodeError, 'codec', b'', 0, 1, 'invalid')
        return p.derived('decode with replacement', [b, norm(enc), errors], A.ALL)
    return p.derived('decode', [b, norm(enc)], A.ALL)


def encode(interp, p, s, enc='utf-8', errors='strict'):
    if not is_str(s):
        interp.throw(TypeError, 'not a text')
    w = world(p)
    known_codec(interp, p, enc)
    encodable(interp, p, w, s, enc, errors)
    if errors not in ('strict', None) and not p.memo.get(('encodable', key_of(s), norm(enc)), True):
        return p.opaque('bytes', Bytes(('replacement',)))
    return bytes_of(p, ('text', s, norm(enc)))


def encodable(interp, p, w, s, enc, errors):
    if isinstance(s, str) and s.isascii() and (enc is None or isinstance(enc, str)):
        return
    k = ('encodable', key_of(s), norm(enc))
    if k not in p.memo:
        p.memo[k] = p.choose(2, 'not encodable') == 0
    if not p.memo[k]:
        w.fail('encode')
        if errors in ('strict', None):
            interp.throw(UnicodeEncodeError, 'codec', '', 0, 1, 'invalid')


def newlines(p, text):
    """universal newlines"""
    if lang_of(text) <= NO_CR:
        return text
    return p.derived('newlines', [text], NO_CR)


def open_(interp, p, path, mode='r', encoding=None, errors=None, newline=None, codec=False, buffering=-1):
    w = world(p)
    if not isinstance(mode, str):
        raise Unsupported('open mode')
    name = w.name(path)
    m = mode.replace('t', '').replace('b', '')
    binary = 'b' in mode
    if codec and encoding is None and not binary:
        codec = False
        newline = None
    if m not in ('r', 'w', 'a'):
        raise Unsupported(f'open mode {mode}')
    if binary and encoding is not None and not codec:
        interp.throw(ValueError, 'binary mode does not take an encoding argument')
    if m == 'r':
        k = ('readable', name, len([x for x in w.log if x[:2] == ('write', name)]))
        if name not in w.files:
            w.fail('open')
            interp.throw(FileNotFoundError, 2, 'No such file or directory')
        if not isinstance(w.files[name], list) or True:
            if k not in p.memo:
                p.memo[k] = p.choose(2, 'open for reading') == 0
            if not p.memo[k]:
                w.fail('open')
                interp.throw(OSError, 2, 'cannot open')
    else:
        if p.choose(2, 'open for writing') == 1:
            w.fail('write')
            interp.throw(OSError, 2, 'cannot open')
        if m == 'w':
            w.files[name] = []
        else:
            old = w.content(name)
            w.files[name] = [(None, old)] if old is not None else []
        w.log.append(('write', name, 'truncated'))
    if not binary or codec and encoding is not None:
        known_codec(interp, p, encoding)
    f = p.opaque('file', File(name, m, None if binary and not codec else (norm(encoding),), encoding, errors or 'strict',
                              not codec and newline is None))
    return f


class File:
    notnone = True

    def __init__(self, name, mode, text, enc, errors, translate):
        self.name, self.mode, self.text, self.enc, self.errors, self.translate = name, mode, text, enc, errors, translate
        self.done = False

    def truth(self, interp, p, o):
        return True

    def enter(self, interp, p, o):
        return o

    def exit(self, interp, p, o, exc):
        return False

    def read(self, interp, p, *a):
        limit = a[0] if len(a) == 1 and type(a[0]) is int and a[0] > 0 else None
        if a and limit is None and not (len(a) == 1 and a[0] in (-1, None)):
            raise Unsupported('read of a part')
        if self.mode != 'r':
            interp.throw(io.UnsupportedOperation, 'not readable')
        if self.done:
            raise Unsupported('second read')
        self.done = True
        w = world(p)
        b = w.content(self.name)
        if self.text is None:
            return b
        t = decode(interp, p, b, self.enc, self.errors)
        t = newlines(p, t) if self.translate else t
        if limit is not None and not isinstance(t, str) and p.choose(2, 'longer than what is read') == 1:
            return p.atom('beginning', A.ALL, ('beginning', t, limit))
        return t

    def write(self, interp, p, x):
        w = world(p)
        if self.mode == 'r':
            interp.throw(io.UnsupportedOperation, 'not writable')
        c = w.files.get(self.name)
        if not isinstance(c, list):
            raise Unsupported('write to a file that was replaced')
        if self.text is None:
            if is_str(x):
                interp.throw(TypeError, 'a bytes-like object is required')
            if not (isinstance(x, Opaque) and isinstance(x.spec, Bytes)):
                raise Unsupported(f'write of {x!r}')
            c.append((None, x))
        else:
            if not is_str(x):
                interp.throw(TypeError, 'write() argument must be str')
            encodable(interp, p, w, x, self.enc, self.errors)
            if not p.memo.get(('encodable', key_of(x), norm(self.enc)), True):
                c.append((None, p.opaque('bytes', Bytes(('replacement',)))))
            else:
                c.append((self.text[0], x))
        w.log.append(('write', self.name, 'written'))
        return p.int('written', 0)

    def getattr(self, interp, p, o, name, default):
        if name == 'read':
            return Builtin(name, lambda i, pp, *a: self.read(i, pp, *a))
        if name == 'write':
            return Builtin(name, lambda i, pp, x: self.write(i, pp, x))
        if name in ('close', 'flush'):
            return Builtin(name, lambda i, pp: None)
        if name == '__enter__':
            return Builtin(name, lambda i, pp: o)
        if name == '__exit__':
            return Builtin(name, lambda i, pp, *a: False)
        raise Unsupported(f'file.{name}')


SUFFIX = A.regex(r'[^/]*', 0)


class Path:
    """a pathlib.Path"""
    notnone = True

    def __init__(self, key):
        self.key = key          # text of the path

    def truth(self, interp, p, o):
        return True

    def isinstance(self, interp, p, o, cs):
        return any(issubclass(pathlib.PosixPath, c) for c in cs)

    def str(self, interp, p, o):
        return self.key

    def getattr(self, interp, p, o, name, default):
        key = self.key
        w = world(p)
        if name == 'name':
            if isinstance(key, str):
                return pathlib.PurePosixPath(key).name
            last = key.parts[-1]
            if isinstance(last, str) and '/' in last:
                return last.rsplit('/', 1)[1]
            return p.derived('path.name', [key], SUFFIX)
        if name == 'with_suffix':
            def with_suffix(i, pp, suffix):
                if isinstance(key, str):
                    return path_of(p, str(pathlib.PurePosixPath(key).with_suffix(suffix)))
                last = key.parts[-1]
                if isinstance(last, str) and '/' in last and '.' in last.rsplit('/', 1)[1][1:]:
                    return path_of(p, rope(*[x if isinstance(x, str) else S((x,)) for x in key.parts[:-1]], last.rsplit('.', 1)[0] + suffix))
                return path_of(p, p.derived('with_suffix', [key, suffix], A.ALL))
            return Builtin(name, with_suffix)
        if name in ('is_dir', 'is_file', 'exists'):
            def ask(i, pp):
                k = (name, key_of(key))
                if k not in p.memo:
                    p.memo[k] = p.choose(2, name) == 0
                return p.memo[k]
            return Builtin(name, ask)
        if name == 'open':
            return Builtin(name, lambda i, pp, mode='r', buffering=-1, encoding=None, errors=None, newline=None: open_(i, pp, o, mode, encoding, errors, newline))
        if name == 'read_text':
            return Builtin(name, lambda i, pp, encoding=None, errors=None: open_(i, pp, o, 'r', encoding, errors).spec.read(i, pp))
        if name == 'read_bytes':
            return Builtin(name, lambda i, pp: open_(i, pp, o, 'rb').spec.read(i, pp))
        if name == 'write_text':
            return Builtin(name, lambda i, pp, data, encoding=None, errors=None, newline=None: open_(i, pp, o, 'w', encoding, errors, newline).spec.write(i, pp, data))
        if name == 'write_bytes':
            def write_bytes(i, pp, data):
                return open_(i, pp, o, 'wb').spec.write(i, pp, data)
            return Builtin(name, write_bytes)
        if name == 'replace':
            return Builtin(name, lambda i, pp, to: replace(i, pp, o, to))
        if name == 'stat':
            return Builtin(name, lambda i, pp: p.opaque('stat', Stat()))
        if name in ('joinpath', '__truediv__'):
            return Builtin(name, lambda i, pp, x: join(i, pp, o, x))
        raise Unsupported(f'Path.{name}')


class Stat:
    notnone = True

    def getattr(self, interp, p, o, name, default):
        return p.opaque(name, Stat())


def path_of(p, key):
    k = ('path', key_of(key))
    if k not in p.memo:
        p.memo[k] = p.opaque('path', Path(key))
    return p.memo[k]


def text_of(x):
    if isinstance(x, Opaque) and isinstance(x.spec, Path):
        return x.spec.key
    if is_str(x):
        return x
    raise Unsupported(f'path {x!r}')


def join(interp, p, a, b):
    return path_of(p, rope(text_of(a), '/', text_of(b)))


def make_path(interp, p, *parts):
    if not parts:
        return path_of(p, '.')
    r = text_of(parts[0])
    for x in parts[1:]:
        r = rope(r, '/', text_of(x))
    return path_of(p, r)


def replace(interp, p, a, b):
    w = world(p)
    na, nb = w.name(a), w.name(b)
    if p.choose(2, 'replace') == 1:
        w.fail('write')
        interp.throw(OSError, 2, 'cannot replace')
    w.files[nb] = w.content(na)
    if na != nb:
        w.files.pop(na, None)
    w.log.append(('write', nb, 'replaced'))
    w.log.append(('write', na, 'moved'))


def remove(interp, p, a):
    w = world(p)
    n = w.name(a)
    if p.choose(2, 'remove') == 1:
        w.fail('write')
        interp.throw(OSError, 2, 'cannot remove')
    w.files.pop(n, None)
    w.log.append(('write', n, 'removed'))


def models():
    def std_open(interp, p, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return open_(interp, p, path, mode, encoding, errors, newline)

    def codecs_open(interp, p, path, mode='r', encoding=None, errors='strict', buffering=-1):
        return open_(interp, p, path, mode, encoding, errors, None, codec=True)

    def c_encode(interp, p, obj, encoding='utf-8', errors='strict'):
        return encode(interp, p, obj, encoding, errors)

    def c_decode(interp, p, obj, encoding='utf-8', errors='strict'):
        return decode(interp, p, obj, encoding, errors)
    return {open: std_open, io.open: std_open, codecs.open: codecs_open, codecs.encode: c_encode, codecs.decode: c_decode,
            pathlib.Path: make_path, pathlib.PurePath: make_path, os.replace: replace, os.rename: replace, os.remove: remove, os.unlink: remove,
            os.fspath: lambda i, p, x: text_of(x)}
