"""Load /repo's schubertpy for symbolic execution.

The repository's source files are compiled unmodified, at every run, from the
working tree.  What differs is only their environment:

* `__builtins__` of those modules has symbolic-aware `min`, `max`, `int`,
  `range`, `set`, `frozenset` (same meaning on concrete values);
* `functools.lru_cache` is a memo keyed by the structure of its arguments and
  emptied at every path;
* `ast.literal_eval` maps printed tokens back to the symbolic integers they
  stand for; `sympy.parse_expr` is memoised (it is a pure function of its text);
* `matplotlib` is an empty stand-in, except for the property about drawings.
"""
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import core
from .core import SymInt, SymFloat, SymBool, If, is_sym

REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------- builtins
def _has_sym(x):
    if is_sym(x):
        return True
    if type(x) in (list, tuple):
        return any(_has_sym(y) for y in x)
    return False


def _minmax(name, orig, pick):
    def f(*args, **kw):
        if kw or not args:
            return orig(*args, **kw)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not any(type(x) is SymInt for x in xs):
            return orig(*args) if len(args) > 1 else orig(xs)
        if not all(type(x) is SymInt or type(x) is int for x in xs):
            return orig(*args) if len(args) > 1 else orig(xs)
        r = xs[0]
        for y in xs[1:]:
            r = pick(r, y)
        return r
    f.__name__ = name
    return f


FORK_MINMAX = True


def _pick_min(a, b):
    c = a <= b
    if type(c) is SymBool:
        d = core.ENG._decide_quick(c)
        if d is not None:
            return a if d else b
        if FORK_MINMAX:
            return a if c else b
    return If(c, a, b)


def _pick_max(a, b):
    c = a >= b
    if type(c) is SymBool:
        d = core.ENG._decide_quick(c)
        if d is not None:
            return a if d else b
        if FORK_MINMAX:
            return a if c else b
    return If(c, a, b)


smin = _minmax('min', builtins.min, _pick_min)
smax = _minmax('max', builtins.max, _pick_max)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is sint

    def __hash__(cls):
        return hash(builtins.int)


class sint(metaclass=_IntMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if type(x) is SymInt:
                return x
            if type(x) is SymFloat:
                return SymInt(x.c, x.t)
            if type(x) is SymBool:
                return x._as_int()
            if isinstance(x, str):
                return core.detok(builtins.int(x))
        return builtins.int(*a, **k)

    from_bytes = builtins.int.from_bytes


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range) or type(x) is _SymRange


class _SymRange:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        x, b, s = self.a, self.b, self.s
        if s > 0:
            while x < b:
                yield x
                x = x + s
        else:
            while x > b:
                yield x
                x = x + s

    def _real(self):
        return builtins.range(self.a.__index__(), self.b.__index__(), self.s)

    def __len__(self):
        n = 0
        for _ in self:
            n += 1
        return n

    def __getitem__(self, i):
        return self._real()[i]

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        if self.s == 1:
            return bool(core.And(x >= self.a, x < self.b))
        return any(x == y for y in self)


class srange(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if not any(is_sym(x) for x in a):
            return builtins.range(*a)
        if len(a) == 1:
            return _SymRange(0, a[0], 1)
        if len(a) == 2:
            return _SymRange(a[0], a[1], 1)
        return _SymRange(a[0], a[1], a[2].__index__())


def seq_eq(x, y):
    """Python equality of two (possibly symbolic) values as a formula."""
    if type(x) in (tuple, list) and type(y) is type(x):
        if len(x) != len(y):
            return False
        return core.And(*(seq_eq(a, b) for a, b in zip(x, y)))
    return x == y


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.set) or type(x) is SymSet

    def __eq__(cls, o):
        return o is builtins.set or o is sset

    def __hash__(cls):
        return hash(builtins.set)


class SymSet:
    """A set whose elements may be symbolic: membership forks on equality."""
    def __init__(self, it=()):
        self.conc = {}
        self.syms = []
        for x in it:
            self.add(x)

    def _find(self, x):
        if not _has_sym(x):
            if x in self.conc:
                return ('c', x)
            for i, y in enumerate(self.syms):
                if bool(seq_eq(y, x)):
                    return ('s', i)
            return None
        for i, y in enumerate(self.syms):
            if bool(seq_eq(y, x)):
                return ('s', i)
        for y in self.conc:
            if bool(seq_eq(y, x)):
                return ('c', y)
        return None

    def add(self, x):
        if type(x) is list:
            raise TypeError("unhashable type: 'list'")
        if self._find(x) is None:
            if _has_sym(x):
                self.syms.append(x)
            else:
                self.conc[x] = True

    def discard(self, x):
        f = self._find(x)
        if f is None:
            return
        if f[0] == 'c':
            del self.conc[f[1]]
        else:
            del self.syms[f[1]]

    def remove(self, x):
        f = self._find(x)
        if f is None:
            raise KeyError(x)
        self.discard(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return self._find(x) is not None

    def __iter__(self):
        try:
            conc = list(builtins.set(self.conc))
        except TypeError:
            conc = list(self.conc)
        return iter(conc + list(self.syms))

    def __len__(self):
        return len(self.conc) + len(self.syms)

    def __bool__(self):
        return len(self) > 0

    def copy(self):
        return SymSet(self)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError

    def clear(self):
        self.conc, self.syms = {}, []

    def __sub__(self, o):
        o = SymSet(o)
        return SymSet(x for x in self if x not in o)

    def __rsub__(self, o):
        return SymSet(o) - self

    def __and__(self, o):
        o = SymSet(o)
        return SymSet(x for x in self if x in o)
    __rand__ = __and__

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r
    __ror__ = __or__

    def __xor__(self, o):
        return (self - o) | (SymSet(o) - self)

    difference, intersection, union = __sub__, __and__, __or__

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)
    __le__ = issubset

    def __eq__(self, o):
        if not (isinstance(o, builtins.set) or type(o) is SymSet):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)
    __hash__ = None


class sset(metaclass=_SetMeta):
    def __new__(cls, it=()):
        return SymSet(it)


# ---------------------------------------------------------------- functools
_MEMOS = []


def reset_memos():
    for m in _MEMOS:
        m.clear()
    restore_state()


# Mutable state the package keeps (tables in modules, classes, closures): every
# path starts from the state right after import, as a fresh process would.
_STATE = []


def _package_state():
    import collections
    seen, todo, out = {}, [], []
    for n, m in list(sys.modules.items()):
        if n == 'schubertpy' or n.startswith('schubertpy.'):
            todo.append(m)
    boxes = (dict, list, builtins.set, collections.deque, SymSet, bytearray)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        if isinstance(x, types.ModuleType):
            if x.__name__.split('.')[0] != 'schubertpy':
                continue
            d = {k: v for k, v in x.__dict__.items() if not (k.startswith('__') and k.endswith('__'))}
            out.append(('ns', x.__dict__, d))
            todo.extend(d.values())
        elif isinstance(x, type):
            if x.__module__.split('.')[0] != 'schubertpy':
                continue
            d = {k: v for k, v in x.__dict__.items() if not (k.startswith('__') and k.endswith('__'))}
            out.append(('class', x, d))
            todo.extend(x.__dict__.values())
        elif isinstance(x, types.FunctionType):
            todo.extend(x.__defaults__ or ())
            todo.extend((x.__kwdefaults__ or {}).values())
            for c in x.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                todo.append(v)
                if isinstance(v, (int, float, str, tuple, type(None), bool)) and x.__module__ and x.__module__.split('.')[0] == 'schubertpy':
                    out.append(('cell', c, v))
            if x.__module__ and x.__module__.split('.')[0] == 'schubertpy':
                out.append(('dict', x.__dict__, dict(x.__dict__)))
                todo.extend(x.__dict__.values())
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo.extend(f for f in (x.fget, x.fset, x.fdel) if f)
        elif isinstance(x, boxes):
            if any(x is m for m in _MEMOS):
                continue
            if isinstance(x, dict):
                out.append(('dict', x, dict(x)))
                todo.extend(x.values())
            elif isinstance(x, SymSet):
                out.append(('symset', x, (dict(x.conc), list(x.syms))))
            elif isinstance(x, builtins.set):
                out.append(('set', x, builtins.set(x)))
            else:
                out.append(('list', x, list(x)))
                todo.extend(x)
        elif type(x).__module__.split('.')[0] == 'schubertpy' and hasattr(x, '__dict__'):
            out.append(('dict', x.__dict__, dict(x.__dict__)))
            todo.extend(x.__dict__.values())
    return out


def restore_state():
    for kind, x, v in _STATE:
        if kind == 'ns':
            for k in [k for k in x if k not in v and not (k.startswith('__') and k.endswith('__'))]:
                if not isinstance(x[k], types.ModuleType):
                    del x[k]
            for k, o in v.items():
                if x.get(k) is not o:
                    x[k] = o
        elif kind == 'class':
            d = x.__dict__
            for k in [k for k in d if k not in v and not (k.startswith('__') and k.endswith('__'))]:
                delattr(x, k)
            for k, o in v.items():
                if d.get(k) is not o:
                    setattr(x, k, o)
        elif kind == 'cell':
            if x.cell_contents is not v:
                x.cell_contents = v
        elif kind == 'dict':
            if len(x) != len(v) or any(x.get(k) is not o for k, o in v.items()):
                x.clear()
                x.update(v)
        elif kind == 'set':
            if x != v:
                x.clear()
                x.update(v)
        elif kind == 'symset':
            x.conc, x.syms = dict(v[0]), list(v[1])
        else:
            if len(x) != len(v) or any(a is not b for a, b in zip(x, v)):
                x.clear()
                x.extend(v)


def _skey(x):
    """A hashable key; equal keys imply equal values on this path."""
    if type(x) in (SymInt, SymFloat):
        c, t = core.ENG.norm(x.c, x.t)
        if t:
            return ('#sym', type(x) is SymFloat, c, t)
        return c
    if type(x) is SymBool:
        return bool(x)
    if type(x) in (tuple, list):
        return (type(x).__name__, tuple(_skey(y) for y in x))
    hash(x)
    return x


def s_lru_cache(maxsize=128, typed=False):
    import functools

    def deco(fn):
        memo = {}
        _MEMOS.append(memo)

        @functools.wraps(fn)
        def wrapper(*a, **k):
            for x in a:                     # unhashable arguments fail as they do for real
                if type(x) in (list, dict):
                    raise TypeError("unhashable type: '%s'" % type(x).__name__)
            key = (tuple(_skey(x) for x in a), tuple((n, _skey(v)) for n, v in sorted(k.items())))
            if key in memo:
                return memo[key]
            r = fn(*a, **k)
            memo[key] = r
            return r
        wrapper.cache_clear = memo.clear
        wrapper.cache_info = lambda: None
        wrapper.cache_parameters = lambda: {'maxsize': maxsize, 'typed': typed}
        return wrapper
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def _make_functools():
    import functools
    m = types.ModuleType('functools')
    m.__dict__.update({k: v for k, v in functools.__dict__.items() if not k.startswith('__')})
    m.lru_cache = s_lru_cache
    m.cache = lambda f: s_lru_cache(None)(f)
    return m


def _make_ast():
    import ast
    m = types.ModuleType('ast')
    m.__dict__.update({k: v for k, v in ast.__dict__.items() if not k.startswith('__')})
    m.literal_eval = lambda s: core.detok(ast.literal_eval(s))
    return m


_PARSED = {}


def _memo_parse(orig):
    def parse_expr(s, *a, **k):
        if a or k or not isinstance(s, str):
            return orig(s, *a, **k)
        r = _PARSED.get(s)
        if r is None:
            r = orig(s)
            if len(_PARSED) > 200000:
                _PARSED.clear()
            _PARSED[s] = r
        return r
    return parse_expr


class _ModuleProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


_SUBST = {}


def _substitutes():
    if not _SUBST:
        import sympy
        _SUBST['functools'] = _make_functools()
        _SUBST['ast'] = _make_ast()
        p = _memo_parse(sympy.parse_expr)

        def sympify(a, *x, **k):
            if type(a) is SymInt:
                a = a._conc()
            elif type(a) is SymFloat:
                a = float(a._conc())
            return sympy.sympify(a, *x, **k)
        _SUBST['sympy'] = _ModuleProxy(sympy, {'parse_expr': p, 'sympify': sympify})
    return _SUBST


def _simport(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in _SUBST:
        return _SUBST[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


def make_builtins(plain_int=False):
    d = dict(builtins.__dict__)
    d.update(min=smin, max=smax, range=srange, set=sset, __import__=_simport)
    if not plain_int:
        d['int'] = sint
    return d


# ---------------------------------------------------------------- import hook
class _Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = compile(src, self.path, 'exec')
        # numpy wants the real `int` as a dtype
        module.__dict__['__builtins__'] = make_builtins(plain_int=('dtype=int' in src))
        exec(code, module.__dict__)
        SOURCES[self.path] = len(src)


SOURCES = {}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'schubertpy' and not name.startswith('schubertpy.'):
            return None
        rel = name.replace('.', '/')
        base = os.path.join(REPO, rel)
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            if not os.path.exists(init):
                return importlib.machinery.PathFinder.find_spec(name, path)
            spec = importlib.util.spec_from_loader(name, _Loader(init, True), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_loader(name, _Loader(f, False), origin=f)
        return None


def install_symbolic(real_matplotlib=False):
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', '/tmp/.mpl-verif')
    for n in () if real_matplotlib else ('matplotlib', 'matplotlib.pyplot'):
        if n not in sys.modules:
            sys.modules[n] = types.ModuleType(n)
    _substitutes()
    sys.meta_path.insert(0, _Finder())
    import schubertpy                     # noqa
    _STATE[:] = _package_state()
    return schubertpy


def install_concrete():
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', '/tmp/.mpl-verif')
    sys.path.insert(0, REPO)
    import schubertpy
    assert os.path.abspath(schubertpy.__file__).startswith(os.path.abspath(REPO) + '/'), schubertpy.__file__
    return schubertpy
