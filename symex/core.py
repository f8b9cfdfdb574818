"""Symbolic execution core.

The code under test runs in CPython itself, on proxy integers (`SymInt`).  A
proxy is a linear form over z3 integer variables; every place where the code
needs a truth value of a symbolic condition (`if`, `while`, `in`, sorting...)
calls `SymBool.__bool__`, which asks z3 which outcomes are possible under the
current path condition and explores all of them (depth-first, by deterministic
re-execution with an incremental solver).  Every place where C code needs a
machine integer (`range`, list repetition, indexing, hashing) calls
`__index__`, which case-splits over *all* values z3 allows.

The same harness functions also run with a `Concrete` engine on plain ints:
that is the replay of a counterexample against the real, unpatched code.
"""
import os
import sys
import time

_Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:                      # the repo's venv has no z3: append the tool venv
    sys.path.append(_Z3DIR)
    import z3

TOKEN_BASE = 9 * 10 ** 18


class PathAbort(BaseException):
    """This path ends here (infeasible or cut); never caught by code under test."""


class EngineError(BaseException):
    """The engine cannot decide something; the check is inconclusive."""


class Violation(BaseException):
    def __init__(self, label, values, info):
        self.label, self.values = label, values
        try:
            self.info = None if info is None else str(info)[:600]
        except Exception as ex:
            self.info = 'unprintable: %r' % (ex,)


ENG = None          # the current engine (symbolic or concrete)


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'z', 'cond', 'a', 'b')

    def __init__(self, id, kind, name, z, cond=None, a=None, b=None):
        self.id, self.kind, self.name, self.z = id, kind, name, z
        self.cond, self.a, self.b = cond, a, b


ATOMS = []
_VARS = {}
_ITES = {}
_DIVS = {}
_MULS = {}
_TOK = {}
_TOKREV = []


def _new_atom(kind, name, z, cond=None, a=None, b=None):
    at = Atom(len(ATOMS), kind, name, z, cond, a, b)
    ATOMS.append(at)
    return at


def var_atom(name):
    at = _VARS.get(name)
    if at is None:
        at = _new_atom('var', name, z3.Int(name))
        _VARS[name] = at
    return at


# ---------------------------------------------------------------- linear forms
def _lin(x):
    """(c, t) of an int or SymInt; None if not an integer-like."""
    if type(x) is SymInt or type(x) is SymFloat:
        return x.c, x.t
    if isinstance(x, SymBool):
        y = x._as_int()
        return _lin(y)
    if isinstance(x, bool):
        return int(x), ()
    if isinstance(x, int):
        return x, ()
    return None


def _mk(c, t, fl=False):
    if not t:
        return float(c) if fl else c
    return SymFloat(c, t) if fl else SymInt(c, t)


def _addt(t1, t2, s=1):
    if not t2:
        return t1
    if not t1:
        return t2 if s == 1 else tuple((a, k * s) for a, k in t2)
    d = dict(t1)
    for a, k in t2:
        v = d.get(a, 0) + s * k
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _scale(c, t, k):
    if k == 0:
        return 0, ()
    return c * k, tuple((a, v * k) for a, v in t)


def _isfl(x):
    return type(x) is SymFloat or isinstance(x, float)


def z3lin(c, t):
    if not t:
        return z3.IntVal(c)
    parts = [(ATOMS[a].z if k == 1 else k * ATOMS[a].z) for a, k in t]
    if c:
        parts.append(z3.IntVal(c))
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


class SymInt:
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    @property
    def __class__(self):
        return int

    # arithmetic -------------------------------------------------------
    def _bin(self, o, s, rev=False):
        if isinstance(o, float):
            if o.is_integer():
                o2 = (int(o), ())
            else:
                return (self._conc() + s * o) if not rev else (o + s * self._conc())
        else:
            o2 = _lin(o)
            if o2 is None:
                return NotImplemented
        fl = _isfl(self) or _isfl(o)
        if rev:
            a, b = o2, (self.c, self.t)
        else:
            a, b = (self.c, self.t), o2
        return _mk(a[0] + s * b[0], _addt(a[1], b[1], s), fl)

    def __add__(self, o): return self._bin(o, 1)
    def __radd__(self, o): return self._bin(o, 1, True)
    def __sub__(self, o): return self._bin(o, -1)
    def __rsub__(self, o): return self._bin(o, -1, True)
    def __neg__(self): return _mk(*_scale(self.c, self.t, -1), _isfl(self))
    def __pos__(self): return self

    def __mul__(self, o):
        if isinstance(o, float):
            if o.is_integer():
                return _mk(*_scale(self.c, self.t, int(o)), True)
            return self._conc() * o
        o2 = _lin(o)
        if o2 is None:
            if isinstance(o, (list, tuple, str)):
                return o * self.__index__()
            return NotImplemented
        fl = _isfl(self) or _isfl(o)
        if not o2[1]:
            return _mk(*_scale(self.c, self.t, o2[0]), fl)
        # symbolic * symbolic: resolve against the path first
        a = ENG.norm(self.c, self.t)
        b = ENG.norm(*o2)
        if not a[1]:
            return _mk(*_scale(*b, a[0]), fl)
        if not b[1]:
            return _mk(*_scale(*a, b[0]), fl)
        key = tuple(sorted((a, b)))
        at = _MULS.get(key)
        if at is None:
            at = _new_atom('mul', None, z3lin(*a) * z3lin(*b), None, a, b)
            _MULS[key] = at
        return _mk(0, ((at.id, 1),), fl)

    __rmul__ = __mul__

    def _divmod_atom(self, d):
        """(quotient, remainder) for a positive constant d, floor semantics."""
        g = 0
        if self.c % d == 0 and all(k % d == 0 for _, k in self.t):
            return _mk(self.c // d, tuple((a, k // d) for a, k in self.t)), 0
        c, t = ENG.norm(self.c, self.t)
        if not t:
            return c // d, c % d
        key = (c, t, d)
        at = _DIVS.get(key)
        if at is None:
            at = _new_atom('div', None, z3lin(c, t) / z3.IntVal(d), None, (c, t), d)
            _DIVS[key] = at
        q = SymInt(0, ((at.id, 1),))
        return q, _mk(c, t) - q * d

    def _constdiv(self, o):
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        l = _lin(o)
        if l is None:
            return None
        c, t = ENG.norm(*l)
        if t:
            return ENG.concretize(c, t)
        return c

    def __floordiv__(self, o):
        d = self._constdiv(o)
        if d is None:
            return NotImplemented
        if d > 0:
            return self._divmod_atom(d)[0]
        if d == 0:
            raise ZeroDivisionError
        return (-self)._divmod_atom(-d)[0] if type(-self) is SymInt else (-self) // -d

    def __mod__(self, o):
        d = self._constdiv(o)
        if d is None:
            return NotImplemented
        if d == 0:
            raise ZeroDivisionError
        if d > 0:
            return self._divmod_atom(d)[1]
        return self - (self // d) * d

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        d = self._constdiv(o)
        if d is None:
            return NotImplemented
        if d == 0:
            raise ZeroDivisionError
        c, t = ENG.norm(self.c, self.t)
        if d < 0:
            c, t = _scale(c, t, -1)
            d = -d
        if not t:
            return c / d
        if c % d == 0 and all(k % d == 0 for _, k in t):
            return _mk(c // d, tuple((a, k // d) for a, k in t), True)
        q, r = SymInt(c, t)._divmod_atom(d)
        if r == 0:
            l = _lin(q)
            return _mk(l[0], l[1], True)
        return ENG.concretize(c, t) / d

    def __rfloordiv__(self, o): return o // self._conc()
    def __rmod__(self, o): return o % self._conc()
    def __rdivmod__(self, o): return divmod(o, self._conc())
    def __rtruediv__(self, o): return o / self._conc()

    def __pow__(self, o, m=None):
        e = o._conc() if isinstance(o, SymInt) else o
        if isinstance(e, int) and 0 <= e <= 3:
            r = 1
            for _ in range(e):
                r = r * self
            return r
        return self._conc() ** e

    def __rpow__(self, o): return o ** self._conc()
    def __abs__(self):
        return self if self >= 0 else -self

    def __lshift__(self, o): return self._conc() << o
    def __rshift__(self, o): return self // (1 << int(o))
    def __rlshift__(self, o): return o << self._conc()
    def __rrshift__(self, o): return o >> self._conc()
    def __and__(self, o):
        if o == 1:
            return self % 2
        return self._conc() & o
    __rand__ = __and__
    def __or__(self, o): return self._conc() | o
    __ror__ = __or__
    def __xor__(self, o): return self._conc() ^ o
    __rxor__ = __xor__
    def __invert__(self): return -self - 1

    # comparisons -------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, float):
            if o.is_integer():
                o = int(o)
            else:
                return getattr(self._conc(), op)(o)
        l = _lin(o)
        if l is None:
            return NotImplemented
        c = self.c - l[0]
        t = _addt(self.t, l[1], -1)
        if op == '__ge__':
            return ge0(c, t)
        if op == '__gt__':
            return ge0(c - 1, t)
        c, t = -c, tuple((a, -k) for a, k in t)
        if op == '__le__':
            return ge0(c, t)
        return ge0(c - 1, t)

    def __ge__(self, o): return self._cmp(o, '__ge__')
    def __gt__(self, o): return self._cmp(o, '__gt__')
    def __le__(self, o): return self._cmp(o, '__le__')
    def __lt__(self, o): return self._cmp(o, '__lt__')

    def __eq__(self, o):
        if isinstance(o, float):
            if not o.is_integer():
                return False
            o = int(o)
        l = _lin(o)
        if l is None:
            return NotImplemented
        return eq0(self.c - l[0], _addt(self.t, l[1], -1))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    # conversions ---------------------------------------------------------
    def _conc(self):
        return ENG.concretize(self.c, self.t)

    def __bool__(self):
        return bool(Not(eq0(self.c, self.t)))

    def __index__(self): return self._conc()
    def __int__(self): return self._conc()
    def __float__(self): return float(self._conc())
    def __hash__(self): return hash(self._conc())
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def is_integer(self): return True
    def bit_length(self): return self._conc().bit_length()
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    def __reduce__(self):
        raise EngineError('pickling a symbolic integer')

    def __repr__(self):
        c, t = ENG.norm(self.c, self.t)
        if not t:
            return str(c)
        key = (c, t)
        tok = _TOK.get(key)
        if tok is None:
            tok = TOKEN_BASE + len(_TOKREV)
            _TOK[key] = tok
            _TOKREV.append(SymInt(c, t))
        return str(tok)

    __str__ = __repr__

    def __format__(self, spec):
        return format(repr(self), spec) if spec in ('', 'd', 's') else format(self._conc(), spec)


class SymFloat(SymInt):
    """An integral float with a symbolic value (only from exact true division)."""
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return SymInt.__repr__(self) + '.0'
    __str__ = __repr__

    def __hash__(self): return hash(float(self._conc()))


def detok(x):
    """Map printed token numerals back to the symbolic integers they stand for."""
    if type(x) is int and TOKEN_BASE <= x < TOKEN_BASE + len(_TOKREV):
        return _TOKREV[x - TOKEN_BASE]
    if type(x) is int and -TOKEN_BASE - len(_TOKREV) < x <= -TOKEN_BASE:
        return -_TOKREV[-x - TOKEN_BASE]
    if type(x) is float and x >= TOKEN_BASE:
        raise EngineError('float token')
    if isinstance(x, (list, tuple)):
        return type(x)(detok(y) for y in x)
    return x


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('op', 'args', 'key', '_z')

    def __init__(self, op, args, key):
        self.op, self.args, self.key, self._z = op, args, key, None

    @property
    def __class__(self):
        return bool

    def z(self):
        if self._z is None:
            op = self.op
            if op == 'ge':
                self._z = z3lin(*self.args) >= 0
            elif op == 'eq':
                self._z = z3lin(*self.args) == 0
            elif op == 'not':
                self._z = z3.Not(self.args.z())
            elif op == 'and':
                self._z = z3.And([a.z() for a in self.args])
            elif op == 'or':
                self._z = z3.Or([a.z() for a in self.args])
        return self._z

    def __bool__(self):
        return ENG.branch(self)

    def _as_int(self):
        return If(self, 1, 0)

    def __index__(self): return 1 if self else 0
    def __int__(self): return 1 if self else 0
    def __hash__(self): return hash(bool(self))
    def __repr__(self): return repr(bool(self))
    def __add__(self, o): return self._as_int() + o
    __radd__ = __add__
    def __sub__(self, o): return self._as_int() - o
    def __rsub__(self, o): return o - self._as_int()
    def __mul__(self, o): return self._as_int() * o
    __rmul__ = __mul__
    def __neg__(self): return -self._as_int()
    def __pos__(self): return self._as_int()
    def __abs__(self): return self._as_int()
    def __and__(self, o): return And(self, o) if isinstance(o, bool) else self._as_int() & o
    __rand__ = __and__
    def __or__(self, o): return Or(self, o) if isinstance(o, bool) else self._as_int() | o
    __ror__ = __or__
    def __xor__(self, o): return Not(Iff(self, o)) if isinstance(o, bool) else self._as_int() ^ o
    __rxor__ = __xor__
    def __floordiv__(self, o): return self._as_int() // o
    def __rfloordiv__(self, o): return o // self._as_int()
    def __mod__(self, o): return self._as_int() % o
    def __rmod__(self, o): return o % self._as_int()
    def __divmod__(self, o): return self._as_int() // o, self._as_int() % o
    def __rdivmod__(self, o): return o // self._as_int(), o % self._as_int()
    def __truediv__(self, o): return self._as_int() / o
    def __rtruediv__(self, o): return o / self._as_int()
    def __pow__(self, o): return self._as_int() ** o
    def __rpow__(self, o): return o ** self._as_int()
    def __lshift__(self, o): return self._as_int() << o
    def __rlshift__(self, o): return o << self._as_int()
    def __rshift__(self, o): return self._as_int() >> o
    def __rrshift__(self, o): return o >> self._as_int()
    def __float__(self): return 1.0 if self else 0.0
    def __trunc__(self): return self._as_int()
    def __round__(self, n=None): return self._as_int()
    def __floor__(self): return self._as_int()
    def __ceil__(self): return self._as_int()
    def __invert__(self): return -self._as_int() - 1
    def __lt__(self, o): return self._as_int() < o
    def __le__(self, o): return self._as_int() <= o
    def __gt__(self, o): return self._as_int() > o
    def __ge__(self, o): return self._as_int() >= o

    def __eq__(self, o):
        if isinstance(o, bool):
            return Iff(self, o)
        return self._as_int() == o

    def __ne__(self, o):
        return Not(self == o)


_BOOLS = {}


def _mkbool(op, args, key):
    b = _BOOLS.get(key)
    if b is None:
        b = SymBool(op, args, key)
        _BOOLS[key] = b
    return b


def _gcd(*xs):
    from math import gcd
    return gcd(*xs)


def ge0(c, t):
    if not t:
        return c >= 0
    g = _gcd(*(k for _, k in t))
    if g > 1:
        t = tuple((a, k // g) for a, k in t)
        c = c // g          # floor: g*L + c >= 0  <=>  L >= ceil(-c/g)
    return _mkbool('ge', (c, t), ('ge', c, t))


def eq0(c, t):
    if not t:
        return c == 0
    g = _gcd(*(k for _, k in t))
    if c % g:
        return False
    if g > 1:
        t = tuple((a, k // g) for a, k in t)
        c = c // g
    if t[0][1] < 0:
        c, t = -c, tuple((a, -k) for a, k in t)
    return _mkbool('eq', (c, t), ('eq', c, t))


def Not(x):
    if type(x) is SymBool:
        if x.op == 'not':
            return x.args
        if x.op == 'ge':
            c, t = x.args
            return ge0(-c - 1, tuple((a, -k) for a, k in t))
        return _mkbool('not', x, ('not', x.key))
    return not x


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or (hasattr(x, '__next__')):
            yield from _flat(x)
        else:
            yield x


def And(*xs):
    out = []
    seen = set()
    for x in _flat(xs):
        if type(x) is SymBool:
            for y in (x.args if x.op == 'and' else (x,)):
                if y.key not in seen:
                    seen.add(y.key)
                    out.append(y)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _mkbool('and', tuple(out), ('and', tuple(y.key for y in out)))


def Or(*xs):
    out = []
    seen = set()
    for x in _flat(xs):
        if type(x) is SymBool:
            for y in (x.args if x.op == 'or' else (x,)):
                if y.key not in seen:
                    seen.add(y.key)
                    out.append(y)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return _mkbool('or', tuple(out), ('or', tuple(y.key for y in out)))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if type(a) is not SymBool:
        return b if a else Not(b)
    if type(b) is not SymBool:
        return a if b else Not(a)
    if a.key == b.key:
        return True
    return And(Or(Not(a), b), Or(Not(b), a))


def If(c, a, b):
    """Integer if-then-else without forking."""
    if type(c) is not SymBool:
        return a if c else b
    if c.op == 'not':
        c, a, b = c.args, b, a
    la, lb = _lin(a), _lin(b)
    if la == lb:
        return a
    # factor the common part out: If(c,a,b) = b + If(c, a-b, 0)
    dc, dt = la[0] - lb[0], _addt(la[1], lb[1], -1)
    if not dt:
        key = (c.key, 0, ())
        at = _ITES.get(key)
        if at is None:
            at = _new_atom('ite', None, z3.If(c.z(), z3.IntVal(1), z3.IntVal(0)), c, (1, ()), (0, ()))
            _ITES[key] = at
        return _mk(lb[0], _addt(lb[1], ((at.id, dc),)))
    key = (c.key, la, lb)
    at = _ITES.get(key)
    if at is None:
        at = _new_atom('ite', None, z3.If(c.z(), z3lin(*la), z3lin(*lb)), c, la, lb)
        _ITES[key] = at
    return SymInt(0, ((at.id, 1),))


def Eq(a, b):
    """Structural equality of ints / sequences, as one formula."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return And(*(Eq(x, y) for x, y in zip(a, b)))
    if isinstance(a, bool) or isinstance(b, bool):
        return Iff(a, b)
    return a == b


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def Min(a, b):
    return If(a <= b, a, b)


def Max(a, b):
    return If(a >= b, a, b)


def Count(conds):
    return Sum(If(c, 1, 0) for c in conds)


def is_sym(x):
    return type(x) in (SymInt, SymFloat, SymBool)


# ---------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.assertions = 0
        self.discharged = 0
        self.trivial = 0
        self.branches = 0
        self.forced = 0
        self.solver_s = 0.0

    def as_dict(self):
        return dict(self.__dict__)


class Entry:
    __slots__ = ('kind', 'key', 'value', 'open', 'flip', 'pushed', 'cond')


class Symbolic:
    """DFS path exploration with an incremental z3 solver."""
    symbolic = True

    def __init__(self, timeout_ms=60000, deadline=None, max_paths=10 ** 9, concretize_inputs=False,
                 conc_width=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.concretize_inputs = concretize_inputs
        self.conc_width = conc_width
        self.stats = Stats()
        self.trace = []
        self.on_reset = []
        self.samples = []
        self.sample_every = 0

    # -- path management
    def _reset(self):
        self.pos = 0
        self.subst = {}
        self.bounds = {}
        self.memo = {}
        self.vars = {}
        self.nchecks = 0
        self.outcome = None
        self.path_failed = None
        for f in self.on_reset:
            f()

    def explore(self, fn):
        global ENG
        prev = ENG
        ENG = self
        self.trace = []
        self.model = {}
        try:
            while True:
                self._reset()
                try:
                    fn(self)
                    done = True
                except PathAbort:
                    done = False
                if self.pos < len(self.trace):
                    raise EngineError('path ended inside its recorded prefix (nondeterminism)')
                if done:
                    self.stats.paths += 1
                else:
                    self.stats.infeasible += 1
                if not self._backtrack():
                    break
                if self.stats.paths + self.stats.infeasible > self.max_paths:
                    raise EngineError('path limit exceeded')
                if self.deadline and time.time() > self.deadline:
                    raise EngineError('time limit exceeded')
        finally:
            ENG = prev
            while self.solver.num_scopes():
                self.solver.pop()

    def _backtrack(self):
        while self.trace:
            e = self.trace[-1]
            if e.open:
                self.solver.pop()
                e.value = not e.value
                e.open = False
                self.solver.push()
                self.solver.add(e.cond.z() if e.value else z3.Not(e.cond.z()))
                self.model = e.flip
                e.flip = None
                return True
            self.trace.pop()
            if e.pushed:
                self.solver.pop()
        return False

    # -- variables
    def var(self, name, lo=None, hi=None):
        if name in self.vars:
            raise EngineError('variable declared twice: ' + name)
        if self.concretize_inputs and self.conc_width is not None:
            if lo is None:
                lo = 0 if hi is None else hi - self.conc_width
            if hi is None or hi > lo + self.conc_width:
                hi = lo + self.conc_width
        at = var_atom(name)
        x = SymInt(0, ((at.id, 1),))
        self.vars[name] = (at.id, lo, hi)
        if at.id not in self.model:
            self.model[at.id] = lo if lo is not None else (min(0, hi) if hi is not None else 0)
        if lo is not None:
            self._assume_raw(x >= lo)
        if hi is not None:
            self._assume_raw(x <= hi)
        if lo is not None and lo == hi:
            self.subst[at.id] = (lo, ())
        if self.concretize_inputs:
            return self.concretize(0, x.t)
        return x

    def _assume_raw(self, cond):
        """Add a constraint that the current model already satisfies."""
        self._learn(cond, True)
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'assume' or e.key != cond.key:
                raise EngineError('nondeterministic replay (assume)')
            self.pos += 1
            return
        e = Entry()
        e.kind, e.key, e.value, e.open, e.flip, e.pushed, e.cond = 'assume', cond.key, True, False, None, True, cond
        self.solver.push()
        self.solver.add(cond.z())
        self.trace.append(e)
        self.pos += 1

    def assume(self, cond):
        if type(cond) is not SymBool:
            if not cond:
                raise PathAbort()
            return
        cond = self.nb(cond)
        if type(cond) is not SymBool:
            if not cond:
                raise PathAbort()
            return
        if cond.op == 'and':
            for a in cond.args:
                self.assume(a)
            return
        d = self._decide_quick(cond)
        if d is True:
            return
        if d is False:
            raise PathAbort()
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'assume' or e.key != cond.key:
                raise EngineError('nondeterministic replay (assume)')
            self.pos += 1
            if not e.value:
                raise PathAbort()
            self._learn(cond, True)
            return
        e = Entry()
        e.kind, e.key, e.value, e.open, e.flip, e.pushed, e.cond = 'assume', cond.key, True, False, None, True, cond
        self.solver.push()
        self.solver.add(cond.z())
        self.trace.append(e)
        self.pos += 1
        if not self.evalb(cond, self.model):
            r = self._check()
            if r == z3.unsat:
                e.value = False
                raise PathAbort()
            self.model = self._getmodel()
        self._learn(cond, True)

    # -- solver
    def _check(self):
        t = time.time()
        r = self.solver.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            # one retry in a fresh, non-incremental solver
            s = z3.Solver()
            s.set('timeout', self.timeout_ms * 2)
            s.add(self.solver.assertions())
            t = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
            if r == z3.unknown:
                raise EngineError('solver answered unknown: ' + s.reason_unknown())
            self._lastmodel = s.model() if r == z3.sat else None
            return r
        self._lastmodel = self.solver.model() if r == z3.sat else None
        return r

    def _getmodel(self):
        m = self._lastmodel
        out = {}
        for nm, (aid, lo, hi) in self.vars.items():
            v = m.eval(ATOMS[aid].z, model_completion=True)
            out[aid] = v.as_long()
        return out

    def evall(self, c, t, model):
        r = c
        for a, k in t:
            at = ATOMS[a]
            if at.kind == 'var':
                r += k * model[a]
            elif at.kind == 'ite':
                l = at.a if self.evalb(at.cond, model) else at.b
                r += k * self.evall(l[0], l[1], model)
            elif at.kind == 'div':
                r += k * (self.evall(at.a[0], at.a[1], model) // at.b)
            else:
                r += k * self.evall(*at.a, model) * self.evall(*at.b, model)
        return r

    def evalb(self, b, model):
        if type(b) is not SymBool:
            return bool(b)
        op = b.op
        if op == 'ge':
            return self.evall(*b.args, model) >= 0
        if op == 'eq':
            return self.evall(*b.args, model) == 0
        if op == 'not':
            return not self.evalb(b.args, model)
        if op == 'and':
            return all(self.evalb(x, model) for x in b.args)
        return any(self.evalb(x, model) for x in b.args)

    # -- simplification against the path
    def norm(self, c, t):
        sub = self.subst
        for _ in range(50):
            hit = False
            for a, k in t:
                if a in sub:
                    hit = True
                    break
                if ATOMS[a].kind == 'ite':
                    d = self._decide_quick(ATOMS[a].cond)
                    if d is not None:
                        hit = True
                        break
                elif ATOMS[a].kind in ('div', 'mul'):
                    if self._resolve(ATOMS[a]) is not None:
                        hit = True
                        break
            if not hit:
                return c, t
            rest = ()
            acc_c, acc = c, ()
            for a, k in t:
                at = ATOMS[a]
                r = None
                if a in sub:
                    r = sub[a]
                elif at.kind == 'ite':
                    d = self._decide_quick(at.cond)
                    if d is not None:
                        r = at.a if d else at.b
                elif at.kind in ('div', 'mul'):
                    r = self._resolve(at)
                if r is None:
                    acc = _addt(acc, ((a, k),))
                else:
                    acc_c += k * r[0]
                    acc = _addt(acc, tuple((x, y * k) for x, y in r[1]))
            c, t = acc_c, acc
        return c, t

    def _resolve(self, at):
        if at.kind == 'div':
            c, t = self.norm(*at.a)
            if not t:
                return (c // at.b, ())
            return None
        a = self.norm(*at.a)
        b = self.norm(*at.b)
        if not a[1]:
            return _scale(*b, a[0])
        if not b[1]:
            return _scale(*a, b[0])
        return None

    def nb(self, b):
        if type(b) is not SymBool:
            return b
        if b.op == 'ge':
            return ge0(*self.norm(*b.args))
        if b.op == 'eq':
            return eq0(*self.norm(*b.args))
        if b.op == 'not':
            return Not(self.nb(b.args))
        if b.op == 'and':
            return And(*(self.nb(x) for x in b.args))
        return Or(*(self.nb(x) for x in b.args))

    def interval(self, c, t):
        lo = hi = c
        for a, k in t:
            at = ATOMS[a]
            if at.kind == 'var':
                bl, bh = self.bounds.get(a, (None, None))
                s = self.subst.get(a)
                if s is not None and not s[1]:
                    bl = bh = s[0]
            elif at.kind == 'ite':
                l1, h1 = self.interval(*at.a)
                l2, h2 = self.interval(*at.b)
                bl = None if l1 is None or l2 is None else min(l1, l2)
                bh = None if h1 is None or h2 is None else max(h1, h2)
            elif at.kind == 'div':
                l1, h1 = self.interval(*at.a)
                bl = None if l1 is None else l1 // at.b
                bh = None if h1 is None else h1 // at.b
            else:
                return None, None
            if k < 0:
                bl, bh = bh, bl
            lo = None if lo is None or bl is None else lo + k * bl
            hi = None if hi is None or bh is None else hi + k * bh
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def _decide_quick(self, b):
        if type(b) is not SymBool:
            return bool(b)
        m = self.memo.get(b.key)
        if m is not None:
            return m
        op = b.op
        if op == 'ge':
            lo, hi = self.interval(*b.args)
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if op == 'eq':
            lo, hi = self.interval(*b.args)
            if lo is not None and lo > 0:
                return False
            if hi is not None and hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            return None
        if op == 'not':
            d = self._decide_quick(b.args)
            return None if d is None else not d
        if op == 'and':
            alltrue = True
            for x in b.args:
                d = self._decide_quick(x)
                if d is False:
                    return False
                if d is None:
                    alltrue = False
            return True if alltrue else None
        allfalse = True
        for x in b.args:
            d = self._decide_quick(x)
            if d is True:
                return True
            if d is None:
                allfalse = False
        return False if allfalse else None

    def _learn(self, b, val):
        if type(b) is not SymBool:
            return
        self.memo[b.key] = val
        op = b.op
        if op == 'not':
            self._learn(b.args, not val)
            return
        if op == 'and' and val:
            for x in b.args:
                self._learn(x, True)
            return
        if op == 'or' and not val:
            for x in b.args:
                self._learn(x, False)
            return
        if op == 'ge':
            n = Not(b)
            if type(n) is SymBool:
                self.memo[n.key] = not val
                if not val:
                    b = n
            c, t = b.args
            if len(t) == 1:
                a, k = t[0]
                if ATOMS[a].kind == 'var':
                    lo, hi = self.bounds.get(a, (None, None))
                    if k > 0:
                        v = -(c // k)       # ceil(-c/k)
                        lo = v if lo is None else max(lo, v)
                    else:
                        v = c // (-k)
                        hi = v if hi is None else min(hi, v)
                    self.bounds[a] = (lo, hi)
                    if lo is not None and lo == hi and a not in self.subst:
                        self.subst[a] = (lo, ())
            return
        if op == 'eq' and val:
            c, t = b.args
            # solve for a variable with unit coefficient
            for a, k in reversed(t):
                if abs(k) == 1 and ATOMS[a].kind == 'var' and a not in self.subst:
                    if any(self._mentions(x, a) for x, _ in t if x != a):
                        continue
                    rest = tuple((x, -y * k) for x, y in t if x != a)
                    self.subst[a] = (-c * k, rest)
                    break
        elif op == 'eq' and not val:
            c, t = b.args
            if len(t) == 1 and abs(t[0][1]) == 1 and ATOMS[t[0][0]].kind == 'var':
                a, k = t[0]
                v = -c * k
                lo, hi = self.bounds.get(a, (None, None))
                if lo is not None and v == lo:
                    lo += 1
                if hi is not None and v == hi:
                    hi -= 1
                self.bounds[a] = (lo, hi)
                if lo is not None and lo == hi and a not in self.subst:
                    self.subst[a] = (lo, ())

    def _mentions(self, aid, v, depth=0):
        at = ATOMS[aid]
        if at.kind == 'var':
            if aid == v:
                return True
            s = self.subst.get(aid)
            return s is not None and any(self._mentions(x, v) for x, _ in s[1])
        return True     # conservative for compound atoms

    # -- decisions
    def branch(self, cond):
        self.stats.branches += 1
        d = self._decide_quick(cond)
        if d is not None:
            return d
        b = self.nb(cond)
        if type(b) is not SymBool:
            return bool(b)
        d = self._decide_quick(b)
        if d is not None:
            return d
        neg = False
        if b.op == 'not':
            b, neg = b.args, True
        v = self._decide(b)
        if cond.key != b.key:
            self.memo[cond.key] = (not v) if neg else v
        return (not v) if neg else v

    def _decide(self, b):
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != 'br' or e.key != b.key:
                raise EngineError('nondeterministic replay: %r vs %r' % (e.key, b.key))
            self.pos += 1
            self._learn(b, e.value)
            return e.value
        if self.deadline and time.time() > self.deadline:
            raise EngineError('time limit exceeded')
        val = self.evalb(b, self.model)
        e = Entry()
        e.kind, e.key, e.cond = 'br', b.key, b
        self.solver.push()
        self.solver.add(z3.Not(b.z()) if val else b.z())
        r = self._check()
        if r == z3.sat:
            e.flip = self._getmodel()
            e.open = True
        else:
            e.flip = None
            e.open = False
        self.solver.pop()
        e.value = val
        if e.open:
            self.solver.push()
            self.solver.add(b.z() if val else z3.Not(b.z()))
            e.pushed = True
        else:
            e.pushed = False
            self.stats.forced += 1
        self.trace.append(e)
        self.pos += 1
        self._learn(b, val)
        return val

    def concretize(self, c, t):
        """Case split over every value the path allows for this linear form."""
        n = 0
        while True:
            c, t = self.norm(c, t)
            if not t:
                return c
            if self.pos < len(self.trace):
                e = self.trace[self.pos]
                if e.kind == 'pin':
                    self.pos += 1
                    return e.value
                if e.kind != 'br' or e.key[0] != 'eq':
                    raise EngineError('nondeterministic replay (concretize)')
                # recover the candidate value from the recorded condition
                kc, kt = e.key[1], e.key[2]
                v = None
                b0 = eq0(c, t)
                # cond was eq0(c - v, t): same t up to sign/gcd
                g = _gcd(*(k for _, k in t))
                s = 1 if t[0][1] > 0 else -1
                # normalised: ((c - v) / g) * s == kc
                v = c - kc * s * g
            else:
                v = self.evall(c, t, self.model)
            b = eq0(c - v, t)
            if type(b) is not SymBool:
                raise EngineError('concretize: bad candidate')
            d = self._decide_quick(b)
            if d is None:
                d = self._decide(b)
            elif d and self.pos == len(self.trace):
                # decided without a branch: recorded, so that the replay finds the same value
                e = Entry()
                e.kind, e.key, e.value, e.open, e.flip, e.pushed, e.cond = 'pin', None, v, False, None, False, None
                self.trace.append(e)
                self.pos += 1
            if d:
                return v
            n += 1
            if n > 5000:
                raise EngineError('unbounded concretisation')

    # -- assertions
    def check(self, label, cond, info=None):
        """Assert cond for every value on this path."""
        self.stats.assertions += 1
        self.nchecks += 1
        c = self.nb(cond) if type(cond) is SymBool else cond
        if type(c) is not SymBool:
            if c:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return
            raise Violation(label, self.values(self.model), info)
        if self.pos < len(self.trace):
            # replaying a prefix: this assertion was already discharged on it,
            # under a weaker path condition
            self.stats.discharged += 1
            return
        self.solver.push()
        self.solver.add(z3.Not(c.z()))
        r = self._check()
        if r == z3.unsat:
            self.solver.pop()
            self.stats.discharged += 1
            return
        m = self._getmodel()
        self.solver.pop()
        raise Violation(label, self.values(m), info)

    def fail(self, label, info=None):
        raise Violation(label, self.values(self.model), info)

    def values(self, model):
        return {nm: model.get(aid, lo if lo is not None else 0) for nm, (aid, lo, hi) in self.vars.items()}

    def concrete_of(self, x, model):
        """Evaluate a (possibly symbolic) outcome structure under a model."""
        if type(x) in (SymInt, SymFloat):
            return self.evall(x.c, x.t, model)
        if type(x) is SymBool:
            return self.evalb(x, model)
        if isinstance(x, (list, tuple)):
            return [self.concrete_of(y, model) for y in x]
        if isinstance(x, dict):
            return {str(k): self.concrete_of(v, model) for k, v in x.items()}
        return x


class Concrete:
    """Run a harness on concrete values (replay)."""
    symbolic = False

    def __init__(self, values):
        self.given = values
        self.vars = {}
        self.violation = None
        self.nchecks = 0
        self.outcome = None
        self.precondition_failed = False
        self.stats = Stats()

    def run(self, fn):
        global ENG
        ENG = self
        try:
            fn(self)
        except PathAbort:
            self.precondition_failed = True
        except Violation as v:
            self.violation = v
        finally:
            ENG = None

    def var(self, name, lo=None, hi=None):
        v = self.given.get(name)
        if v is None:
            v = lo if lo is not None else 0
        self.vars[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise PathAbort()
        return v

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, label, cond, info=None):
        self.nchecks += 1
        if not cond:
            raise Violation(label, dict(self.vars), info)

    def fail(self, label, info=None):
        raise Violation(label, dict(self.vars), info)

    def norm(self, c, t):
        return c, t
