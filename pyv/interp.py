"""Interpreter of the repository's own source (AST of the live functions) over symbolic values."""
import ast
import builtins
import importlib
import inspect
import operator
import sys
import textwrap
import types

import z3

from . import automata as A
from .explore import Path, lang_of
from .values import *  # noqa
from .values import (S, SB, SI, Atom, Bound, Builtin, Func, Gen, Obj, Opaque, PathEnd, Pending, SDict, Seg, SList, TExc,
                     Unsupported, atom_of, is_str, key_of, mkbool, mkint, parts_of, rope, zint)

MISSING = object()
_mod_ast = {}
INTERPRETED = ('creole',)
# pure python functions of the standard library that are interpreted from their source, too
INTERPRET_STD = ('xml.sax.saxutils',)


def module_ast(modname):
    if modname not in _mod_ast:
        mod = sys.modules.get(modname) or importlib.import_module(modname)
        src = inspect.getsource(mod)
        tree = ast.parse(src)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if getattr(n, 'decorator_list', None):
                    ln = min([ln] + [d.lineno for d in n.decorator_list])
                index.setdefault(ln, []).append(n)
        _mod_ast[modname] = index
    return _mod_ast[modname]


def func_of(real):
    """Func for a real python function"""
    f = _func_cache.get(real)
    if f is None:
        idx = module_ast(real.__module__)
        code = real.__code__
        cands = [n for n in idx.get(code.co_firstlineno, []) if getattr(n, 'name', '<lambda>') == code.co_name]
        if not cands:
            raise Unsupported(f'no source for {real}')
        closure = None
        if real.__closure__:
            closure = {n: c.cell_contents for n, c in zip(code.co_freevars, real.__closure__)}
        f = Func(cands[0], real.__globals__, closure, real.__name__, real.__qualname__, real.__defaults__ or (),
                 real.__kwdefaults__ or {}, real)
        _func_cache[real] = f
    return f


_func_cache = {}


def is_repo_func(f):
    m = getattr(f, '__module__', None) or ''
    return isinstance(f, types.FunctionType) and (m.split('.')[0] in INTERPRETED or m in INTERPRET_STD)


def is_repo_class(c):
    return isinstance(c, type) and (c.__module__ or '').split('.')[0] in INTERPRETED


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Frame:
    def __init__(self, func, parent, fid, owner):
        self.func = func
        self.locals = {}
        self.parent = parent    # Frame, or dict of free variables
        self.fid = fid
        self.mark = 0           # registry size at creation
        self.owner = owner      # class whose body the function belongs to (name mangling, super)
        self.globs = func.globals
        self.global_names = set()
        self.nonlocals = set()
        self.line = 0
        self.handling = []      # exceptions being handled


def posonly_names(a):
    return [x.arg for x in a.posonlyargs]


def kwonly_names(a):
    return [x.arg for x in a.kwonlyargs]


class Contract:
    """what the verifier knows of a function at a call: see spec modules"""

    def __init__(self, name, apply):
        self.name = name
        self.apply = apply      # apply(interp, path, args, kwargs) -> value (may raise TExc)


class Interp:
    def __init__(self, path, contracts=None, models=None, hooks=None):
        self.path = path
        self.contracts = contracts or {}
        self.models = models or {}
        self.hooks = hooks or {}
        self.frames = []
        self.all_frames = []
        self.calldepth = 0
        self.max_depth = 60
        self.steps = 0

    # ------------------------------------------------------------ exceptions
    def throw(self, cls, *args):
        o = self.path.obj(cls, {'args': tuple(args)}, name=cls.__name__)
        raise TExc(o, cls)

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None, site=None):
        kwargs = kwargs or {}
        p = self.path
        if isinstance(f, Bound):
            return self.call(f.func, (f.self,) + tuple(args), kwargs, site)
        if isinstance(f, Builtin):
            return f.fn(self, p, *args, **kwargs)
        if isinstance(f, Func):
            c = self.contracts.get(f.real) if f.real is not None else None
            if c is not None:
                r = c.apply(self, p, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.call_func(f, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_attr(f.cls, '__call__')
            if m is not MISSING and isinstance(m, (types.FunctionType,)):
                return self.call(self.wrap_attr(f, m, f.cls, '__call__'), args, kwargs)
            if f.meta.get('call'):
                return f.meta['call'](self, p, f, args, kwargs)
            self.throw(TypeError, f'{f.cls.__name__!r} object is not callable')
        if isinstance(f, Opaque):
            if f.spec is not None and hasattr(f.spec, 'call'):
                return f.spec.call(self, p, f, args, kwargs)
            raise Unsupported(f'call of {f!r}')
        if isinstance(f, (types.MethodType,)):
            return self.call(f.__func__, (self.lift(f.__self__),) + tuple(args), kwargs)
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is None:
            m = self.std_model(f)
        if m is not None:
            r = m(self, p, *args, **kwargs)
            if r is not NotImplemented:
                return r
        if is_repo_func(f):
            return self.call(func_of(f), args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if all_concrete(args) and all_concrete(list(kwargs.values())) and (is_pure(f)):
            try:
                return self.lift(f(*[lower(a) for a in args], **{k: lower(v) for k, v in kwargs.items()}))
            except Exception as e:
                raise TExc(e, type(e))
        if isinstance(f, (str, int, tuple, S, SI)) or f is None:
            self.throw(TypeError, 'object is not callable')
        raise Unsupported(f'call of {f!r}')

    def std_model(self, f):
        from . import models
        return models.lookup(f)

    def bind(self, f, args, kwargs):
        a = f.node.args
        loc = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            self.throw(TypeError, f'{f.name}() takes {len(names)} positional arguments but {len(args)} were given')
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        more = None
        if '**' in kwargs:
            from . import models
            kwargs = dict(kwargs)
            more = kwargs.pop('**')
            found = {}
            for k in [x for x in names if x not in posonly_names(a)] + kwonly_names(a):
                if k not in more.d and models.dict_has(self, more, k):
                    if k in kwargs or k in loc:
                        self.throw(TypeError, 'got multiple values for keyword argument')
                    found[k] = models.dict_get(self, more, k)
            kwargs.update(found)
            for k, v in more.d.items():
                if k in kwargs:
                    self.throw(TypeError, 'got multiple values for keyword argument')
                kwargs[k] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if (k in names and k not in posonly) or k in kwonly:
                if k in loc:
                    self.throw(TypeError, f"{f.name}() got multiple values for argument '{k}'")
                loc[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw(TypeError, f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            loc[a.kwarg.arg] = self.path.sdict(extra)
            if more is not None:
                loc[a.kwarg.arg].sym = models.Delegate(more, tuple(found))
        elif more is not None and models.bool_memo(self.path, ('more keys', more.rid)):
            self.throw(TypeError, f'{f.name}() got an unexpected keyword argument')
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j < 0:
                    self.throw(TypeError, f"{f.name}() missing required positional argument: '{n}'")
                loc[n] = self.lift(f.defaults[j])
        for n in kwonly:
            if n not in loc:
                if n in f.kwdefaults:
                    loc[n] = self.lift(f.kwdefaults[n])
                else:
                    self.throw(TypeError, f"{f.name}() missing required keyword argument: '{n}'")
        return loc

    def call_func(self, f, args, kwargs):
        p = self.path
        loc = self.bind(f, args, kwargs)
        if self.calldepth > self.max_depth:
            raise Unsupported(f'recursion without contract: {f.qualname}')
        fid = len(self.all_frames)
        fr = Frame(f, f.closure, fid, f.owner or owner_of(f))
        fr.mark = len(p.reg)
        p.reg.append(None)
        h = self.hooks.get('enter')
        if h:
            h(self, f)
        self.all_frames.append(fr)
        fr.locals.update(loc)
        self.frames.append(fr)
        self.calldepth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(f.node)):
                raise Unsupported('generator function')
            try:
                self.block(f.node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.calldepth -= 1
            self.frames.pop()

    def instantiate(self, cls, args, kwargs):
        p = self.path
        if issubclass(cls, BaseException):
            o = p.obj(cls, {'args': tuple(args)}, name=cls.__name__)
            return o
        if not is_repo_class(cls):
            raise Unsupported(f'instance of {cls}')
        o = p.obj(cls, name=cls.__name__)
        h = self.hooks.get('new')
        if h:
            h(self, o)
        init = self.class_attr(cls, '__init__')
        if isinstance(init, types.FunctionType):
            self.call(self.wrap_attr(o, init, cls, '__init__'), args, kwargs)
        elif args or kwargs:
            self.throw(TypeError, f'{cls.__name__}() takes no arguments')
        return o

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def wrap_attr(self, obj, v, cls, name):
        if isinstance(v, types.FunctionType):
            m = None
            try:
                m = self.models.get(v)
            except TypeError:
                pass
            if m is not None:
                return Builtin(name, lambda interp, path, *a, **k: m(interp, path, obj, *a, **k))
            if is_repo_func(v):
                f = func_of(v)
                return Bound(obj, f)
            mm = self.std_model(v)
            if mm is not None:
                return Builtin(name, lambda interp, path, *a, **k: mm(interp, path, obj, *a, **k))
            return Builtin(name, lambda *a, **k: (_ for _ in ()).throw(Unsupported(f'method {v}')))
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(cls, func_of(v.__func__))
        if isinstance(v, property):
            return self.call(Bound(obj, func_of(v.fget)), ())
        return self.lift(v)

    def getattr(self, o, name, default=MISSING):
        p = self.path
        if isinstance(o, Obj):
            if 'watch' in o.meta:
                o.meta['watch'](self, o, name)
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Pending):
                    from . import loops
                    v = loops.resolve(self, v)
                    if v is MISSING:
                        del o.fields[name]
                        return self.getattr(o, name, default)
                    o.fields[name] = v
                return v
            if o.lazy is not None:
                v = o.lazy(p, o, name)
                if v is not MISSING:
                    o.fields[name] = v
                    return v
            if name == '__class__':
                return o.cls
            v = self.class_attr(o.cls, name)
            if v is MISSING:
                if issubclass(o.cls, BaseException) and name in ('with_traceback',):
                    return Builtin(name, lambda i, p, *a: o)
                if default is not MISSING:
                    return default
                self.throw(AttributeError, f"'{o.cls.__name__}' object has no attribute '{name}'")
            return self.wrap_attr(o, v, o.cls, name)
        if isinstance(o, Opaque):
            if o.spec is not None and hasattr(o.spec, 'getattr'):
                return o.spec.getattr(self, p, o, name, default)
            raise Unsupported(f'attribute {name} of {o!r}')
        if isinstance(o, types.ModuleType):
            if not hasattr(o, name):
                if default is not MISSING:
                    return default
                self.throw(AttributeError, f'module has no attribute {name}')
            return self.lift(getattr(o, name))
        if isinstance(o, type):
            if is_repo_class(o):
                v = self.class_attr(o, name)
                if v is MISSING:
                    if default is not MISSING:
                        return default
                    if name == '__name__':
                        return o.__name__
                    self.throw(AttributeError, f"type object '{o.__name__}' has no attribute '{name}'")
                if isinstance(v, types.FunctionType):
                    return v
                if isinstance(v, staticmethod):
                    return v.__func__
                if isinstance(v, classmethod):
                    return Bound(o, func_of(v.__func__))
                return self.lift(v)
            return getattr(o, name)
        if isinstance(o, (Func,)):
            if name in ('__name__',):
                return o.name
        from . import models
        r = models.method(self, o, name)
        if r is not None:
            return r
        if isinstance(o, (Bound, Func, Builtin)):
            if default is not MISSING:
                return default
            if name == '__name__':
                return getattr(o, 'name', None) or o.func.name
        if o is None or isinstance(o, (bool, int, float)):
            if hasattr(o, name):
                return getattr(o, name)
            if default is not MISSING:
                return default
            self.throw(AttributeError, f"{type(o).__name__!r} object has no attribute '{name}'")
        if is_str(o) or isinstance(o, (SList, SDict, tuple, SI, SB)):
            if default is not MISSING:
                return default
            self.throw(AttributeError, f"object has no attribute '{name}'")
        if hasattr(o, name):     # a foreign object (module constant etc.)
            return self.lift(getattr(o, name))
        if default is not MISSING:
            return default
        self.throw(AttributeError, f"{type(o).__name__!r} object has no attribute '{name}'")

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            self.path.log.append(('f', o, name, o.fields.get(name, MISSING)))
            o.fields[name] = v
            h = self.hooks.get('setattr')
            if h:
                h(self, o, name, v)
            return
        h = self.hooks.get('foreign_write')
        if h and h(self, o, name, v):
            return
        raise Unsupported(f'attribute write on {o!r}')

    def lift(self, v):
        """real python value -> symbolic world (mutable containers are copied; constants of the program)"""
        meta = {'real': f'a {type(v).__name__} of the program (module, class or default argument)'}
        if type(v) is list:
            return self.path.slist([self.lift(x) for x in v], meta=meta)
        if type(v) is dict:
            return self.path.sdict({k: self.lift(x) for k, x in v.items()}, meta=meta)
        if type(v) is set:
            return self.path.slist([self.lift(x) for x in v], kind='set', meta=meta)
        return v

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while isinstance(f, Frame):
            if name in f.locals and name not in f.global_names:
                v = f.locals[name]
                if isinstance(v, Pending):
                    from . import loops
                    v = loops.resolve(self, v)
                    if v is MISSING:
                        del f.locals[name]
                        self.throw(UnboundLocalError, name)
                    f.locals[name] = v
                return v
            f = f.parent
        if isinstance(f, dict) and name in f:
            return self.lift(f[name])
        g = fr.globs
        if name in g:
            h = self.hooks.get('global')
            if h:
                r = h(self, g, name)
                if r is not NotImplemented:
                    return r
            return self.lift_global(g, name)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if name in local_names(fr.func.node):
            self.throw(UnboundLocalError, name)
        self.throw(NameError, f"name '{name}' is not defined")

    def lift_global(self, g, name):
        v = g[name]
        if type(v) in (list, dict, set):
            k = ('glob', id(g), name)
            if k not in self.path.memo:
                r = self.lift(v)
                r.meta['global'] = name
                self.path.memo[k] = r
            return self.path.memo[k]
        return v

    def store_name(self, name, v, fr):
        if name in fr.global_names:
            h = self.hooks.get('foreign_write')
            if h and h(self, None, name, v):
                return
            raise Unsupported('global write')
        if name in fr.nonlocals:
            f = fr.parent
            while isinstance(f, Frame) and name not in f.locals:
                f = f.parent
            fr = f
        self.path.log.append(('v', fr, name, fr.locals.get(name, MISSING)))
        fr.locals[name] = v

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        fr.line = s.lineno
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps on one path')
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, fr)

    def st_Expr(self, s, fr):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.ev(s.value, fr)
            if isinstance(cur, SList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                return
            self.store_name(t.id, self.binop(s.op, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            name = mangle(t.attr, fr.owner)
            cur = self.getattr(o, name)
            v = self.ev(s.value, fr)
            if isinstance(cur, SList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v)
                return
            self.setattr(o, name, self.binop(s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            from . import models
            cur = models.getitem(self, o, i)
            v = self.ev(s.value, fr)
            models.setitem(self, o, i, self.binop(s.op, cur, v))
        else:
            raise Unsupported('augmented target')

    def list_extend(self, lst, v):
        self.path.log.append(('l', lst, None, list(lst.items)))
        lst.items.extend(self.to_items(v))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), mangle(t.attr, fr.owner), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, len(t.elts) if not star else None)
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:k], items):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.path.slist(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            from . import models
            models.setitem(self, self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        from . import models
        if isinstance(v, SList) and not v.concrete or (isinstance(v, S)):
            return models.unpack_symbolic(self, v, n)
        items = self.to_items(v)
        if n is not None and len(items) != n:
            self.throw(ValueError, 'too many values to unpack' if len(items) > n else 'not enough values to unpack')
        return items

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            if s.msg is not None:
                msg = self.ev(s.msg, fr)
                self.throw(AssertionError, msg)
            self.throw(AssertionError)

    def st_Raise(self, s, fr):
        if s.exc is None:
            if fr.handling:
                raise fr.handling[-1]
            for f in reversed(self.frames):
                if f.handling:
                    raise f.handling[-1]
            raise Unsupported('raise outside except')
        v = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.instantiate(v, (), {})
        if isinstance(v, Obj) and issubclass(v.cls, BaseException):
            raise TExc(v, v.cls)
        if isinstance(v, BaseException):
            raise TExc(v, type(v))
        raise Unsupported('raise of non-exception')

    def st_Try(self, s, fr):
        def inner():
            try:
                self.block(s.body, fr)
            except TExc as e:
                h0 = self.hooks.get('except')
                if h0:
                    h0(self, s, e, fr)
                for h in s.handlers:
                    if self.handler_matches(h, e, fr):
                        fr.handling.append(e)
                        try:
                            if h.name:
                                self.store_name(h.name, e.value, fr)
                            self.block(h.body, fr)
                        finally:
                            fr.handling.pop()
                        if h.name:
                            fr.locals.pop(h.name, None)
                        return
                raise
            self.block(s.orelse, fr)
        if not s.finalbody:
            return inner()
        try:
            inner()
        except (TExc, Ret, Brk, Cont):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def handler_matches(self, h, e, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        spec = None
        if isinstance(e.value, Obj):
            spec = e.value.meta.get('subclass')     # unknown subclass of e.cls
        for c in ts:
            if issubclass(e.cls, c):
                return True
        if spec:
            for c in ts:
                if issubclass(c, e.cls):
                    # unknown whether it is an instance
                    k = ('isexc', e.value.rid, c.__name__)
                    if k not in self.path.memo:
                        self.path.memo[k] = self.path.choose(2, f'exc {c.__name__}') == 0
                    if self.path.memo[k]:
                        return True
        return False

    def st_With(self, s, fr):
        from . import models
        if len(s.items) != 1:
            inner = ast.With(items=s.items[1:], body=s.body, lineno=s.lineno, col_offset=s.col_offset)
            ast.copy_location(inner, s)
            return self.st_With(ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s), fr)
        item = s.items[0]
        cm = self.ev(item.context_expr, fr)
        v = models.enter(self, cm)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            self.block(s.body, fr)
        except TExc as e:
            if models.exit(self, cm, e):
                return
            raise
        except (Ret, Brk, Cont):
            models.exit(self, cm, None)
            raise
        else:
            models.exit(self, cm, None)

    def st_FunctionDef(self, s, fr):
        f = Func(s, fr.globs, fr, s.name, f'{fr.func.qualname}.<locals>.{s.name}',
                 tuple(self.ev(d, fr) for d in s.args.defaults),
                 {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
                 None, fr.owner)
        self.store_name(s.name, f, fr)

    def st_Import(self, s, fr):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname is None:
                m = sys.modules[a.name.split('.')[0]]
            self.store_name(a.asname or a.name.split('.')[0], m, fr)

    def st_ImportFrom(self, s, fr):
        m = importlib.import_module(s.module)
        for a in s.names:
            self.store_name(a.asname or a.name, getattr(m, a.name), fr)

    def st_Global(self, s, fr):
        fr.global_names.update(s.names)

    def st_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def st_Delete(self, s, fr):
        from . import models
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                models.delitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.path.log.append(('f', o, t.attr, o.fields.get(t.attr, MISSING)))
                o.fields.pop(t.attr, None)
            else:
                raise Unsupported('del')

    def st_Break(self, s, fr):
        raise Brk()

    def st_Continue(self, s, fr):
        raise Cont()

    def st_For(self, s, fr):
        from . import loops
        it = self.ev(s.iter, fr)
        try:
            loops.iterate(self, it, s, fr,
                          lambda x: (self.assign(s.target, x, fr), self.body_of(s.body, fr)))
        except Brk:
            return
        self.block(s.orelse, fr)

    def body_of(self, body, fr):
        try:
            self.block(body, fr)
        except Cont:
            pass

    def st_While(self, s, fr):
        from . import loops
        try:
            loops.while_loop(self, s, fr)
        except Brk:
            return
        self.block(s.orelse, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, fr)

    def ex_Constant(self, e, fr):
        return e.value

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), mangle(e.attr, fr.owner))

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def ex_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ex_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_items(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return self.path.slist(out)

    def ex_Set(self, e, fr):
        return self.path.slist([self.ev(x, fr) for x in e.elts], kind='set')

    def ex_Dict(self, e, fr):
        d = self.path.sdict()
        from . import models
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, d, self.ev(v, fr))
            else:
                models.setitem(self, d, self.ev(k, fr), self.ev(v, fr))
        return d

    def ex_JoinedStr(self, e, fr):
        from . import models
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord('r'):
                    x = models.repr_(self, self.path, x)
                elif v.conversion == ord('s'):
                    x = models.str_(self, self.path, x)
                elif v.conversion == ord('a'):
                    raise Unsupported('!a')
                spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                out.append(models.format_(self, x, spec))
        return rope(*out)

    def ex_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SB):
                return mkbool(z3.Not(v.e))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return mkint(-zint(v)) if isinstance(v, SI) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary op')

    def ex_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        from . import models
        return models.binop(self, op, a, b)

    def ex_Compare(self, e, fr):
        from . import models
        left = self.ev(e.left, fr)
        if len(e.ops) == 1:
            return models.compare(self, e.ops[0], left, self.ev(e.comparators[0], fr))
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            if not self.truth(models.compare(self, op, left, right)):
                return False
            left = right
        return True

    def ex_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*(self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)))
        return self.ev(s, fr)

    def ex_Slice(self, e, fr):
        return self.ev_slice(e, fr)

    def ex_Subscript(self, e, fr):
        from . import models
        return models.getitem(self, self.ev(e.value, fr), self.ev_slice(e.slice, fr))

    def ex_Lambda(self, e, fr):
        return Func(e, fr.globs, fr, '<lambda>', fr.func.qualname + '.<lambda>',
                    tuple(self.ev(d, fr) for d in e.args.defaults), {}, None, fr.owner)

    def ex_GeneratorExp(self, e, fr):
        return Gen(e, fr)

    def ex_ListComp(self, e, fr):
        return self.comp(e, fr)

    def ex_SetComp(self, e, fr):
        r = self.comp(e, fr)
        r.kind = 'set'
        return r

    def ex_DictComp(self, e, fr):
        d = self.path.sdict()
        self.comp(e, fr, pair=d)
        return d

    def comp(self, e, fr, pair=None):
        """list of the values of a comprehension or generator expression"""
        from . import loops, models
        out = self.path.slist()
        fid = len(self.all_frames)
        cf = Frame(fr.func, fr, fid, fr.owner)
        cf.globs = fr.globs
        cf.mark = len(self.path.reg)
        self.path.reg.append(None)
        self.all_frames.append(cf)
        self.frames.append(cf)

        def go(i):
            if i == len(e.generators):
                if pair is not None:
                    k = self.ev(e.key, cf)
                    models.setitem(self, pair, k, self.ev(e.value, cf))
                    return
                v = self.ev(e.elt, cf)
                self.path.log.append(('l', out, None, None))
                out.items.append(v)
                return
            g = e.generators[i]
            it = self.ev(g.iter, cf if i else fr)

            def body(x):
                self.assign(g.target, x, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                go(i + 1)
            loops.iterate(self, it, g, cf, body)
        try:
            go(0)
        finally:
            self.frames.pop()
        g = e.generators
        if pair is None and len(g) == 1 and not g[0].ifs:
            def value(interp, p, x):
                self.frames.append(cf)
                try:
                    self.assign(g[0].target, x, cf)
                    return self.ev(e.elt, cf)
                finally:
                    self.frames.pop()
            models.note_map(self.path, out, Builtin('element', value))
        return out

    def ex_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            selfname = fr.func.node.args.args[0].arg
            return SuperProxy(fr.locals[selfname], fr.owner)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            sp = self.ev(e.func.value, fr)
            f = self.super_attr(sp, mangle(e.func.attr, fr.owner))
        else:
            f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, SList) and not v.concrete:
                    args.append(('*', v))
                else:
                    args.extend(self.to_items(v))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, SDict):
                    if d.sym is not None:
                        kwargs['**'] = d
                        continue
                    for kk, vv in d.d.items():
                        if kk in kwargs:
                            self.throw(TypeError, 'got multiple values for keyword argument')
                        kwargs[kk] = vv
                else:
                    raise Unsupported('** of non-dict')
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        fr.line = e.lineno
        h = self.hooks.get('call')
        if h:
            r = h(self, f, args, kwargs, e)
            if r is not NotImplemented:
                return r
        return self.call(f, tuple(args), kwargs, e)

    def super_attr(self, sp, name):
        cls = sp.obj.cls if isinstance(sp.obj, Obj) else sp.obj
        mro = cls.__mro__
        i = mro.index(sp.owner)
        for c in mro[i + 1:]:
            if name in c.__dict__:
                return self.wrap_attr(sp.obj, c.__dict__[name], cls, name)
        if name == '__init__':
            return Builtin('__init__', lambda i, p, *a, **k: None)
        self.throw(AttributeError, f"'super' object has no attribute '{name}'")

    # ------------------------------------------------------------ helpers
    def truth(self, v):
        from . import models
        return models.truth(self, v)

    def to_items(self, v):
        from . import models
        return models.to_items(self, v)


class SuperProxy:
    def __init__(self, obj, owner):
        self.obj = obj
        self.owner = owner


POISON = object()


def mangle(name, owner):
    if name.startswith('__') and not name.endswith('__') and owner is not None:
        return f'_{owner.__name__.lstrip("_")}{name}'
    return name


def own_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


_locals_cache = {}


def local_names(fn):
    if isinstance(fn, ast.Lambda):
        return ()
    r = _locals_cache.get(fn)
    if r is None:
        r = {n.id for n in own_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        _locals_cache[fn] = r
    return r


_owner_cache = {}


def owner_of(f):
    """class in whose body the real function is defined"""
    if f.real is None:
        return None
    if f.real in _owner_cache:
        return _owner_cache[f.real]
    q = f.real.__qualname__.split('.')
    r = None
    if len(q) > 1 and '<locals>' not in q:
        r = sys.modules.get(f.real.__module__)
        for n in q[:-1]:
            r = getattr(r, n, None)
    _owner_cache[f.real] = r
    return r


def all_concrete(vs):
    for v in vs:
        if isinstance(v, (S, SI, SB, Seg, Atom, Obj, Opaque, Func, Bound, Builtin, Gen)):
            return False
        if isinstance(v, SList):
            if not v.concrete or not all_concrete(v.items):
                return False
        if isinstance(v, SDict):
            if v.sym is not None or not all_concrete(v.d.values()):
                return False
        if isinstance(v, (tuple, list)) and not all_concrete(v):
            return False
    return True


def lower(v):
    if isinstance(v, SList):
        r = [lower(x) for x in v.items]
        return set(r) if v.kind == 'set' else r
    if isinstance(v, SDict):
        return {k: lower(x) for k, x in v.d.items()}
    if isinstance(v, tuple):
        return tuple(lower(x) for x in v)
    return v


PURE = {len, max, min, sum, abs, int, str, repr, sorted, chr, ord, bool, isinstance, issubclass, tuple, float,
        callable, type, hash, round, any, all}


def is_pure(f):
    if f in PURE:
        return True
    s = getattr(f, '__self__', None)
    if isinstance(f, types.BuiltinMethodType) and isinstance(s, (str, int, tuple, bytes)):
        return True
    mod = getattr(f, '__module__', '') or ''
    return mod in ('posixpath', 'json', 'html', 'urllib.parse', 'json.encoder')
