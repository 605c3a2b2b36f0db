"""Replacements for float/int/math/numpy seen by the instrumented modules."""

import builtins
import math as _math
import operator
from fractions import Fraction

import numpy as _np

from . import sym
from .sym import SymReal, SymBool, Unsupported, lift, to_fraction

def is_symbolic(x):
    return isinstance(x, (SymReal, SymBool))

def exact(x):
    """any scalar to an exact number (int / Fraction / SymReal)"""
    if isinstance(x, (SymReal, Fraction)):
        return x
    if isinstance(x, SymBool):
        return Fraction(int(bool(x)))
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, (float, _np.floating)):
        return to_fraction(x)
    if isinstance(x, _np.integer):
        return Fraction(int(x))
    if isinstance(x, _np.ndarray) and x.size == 1:
        return exact(x.reshape(-1)[0])
    return None

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymReal):
            return sym.E is None or not sym.is_whole(x)
        return isinstance(x, (builtins.float, Fraction))
    def __subclasscheck__(cls, c):
        return c is FloatT or builtins.issubclass(c, (builtins.float, Fraction))
    def __eq__(cls, o):
        return o is FloatT or o is builtins.float
    def __hash__(cls):
        return hash(builtins.float)

class FloatT(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        v = exact(x)
        if v is not None:
            return v
        if isinstance(x, str):
            if sym.E is not None:
                v = sym.E.parse_numeral(x)
                if v is not None:
                    return v
            f = builtins.float(x)     # raises ValueError as the real one
            if f != f or f in (builtins.float('inf'), -builtins.float('inf')):
                return f
            try:
                return Fraction(x.strip().replace('_', ''))
            except ValueError:
                return to_fraction(f)
        if hasattr(x, '__float__'):
            return exact(x.__float__())
        raise TypeError(f"float() argument must be a string or a real number, not '{type(x).__name__}'")

FloatT.__name__ = 'float'

class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymReal):
            return sym.E is not None and sym.is_whole(x)
        return isinstance(x, builtins.int)
    def __subclasscheck__(cls, c):
        return c is IntT or builtins.issubclass(c, builtins.int)
    def __eq__(cls, o):
        return o is IntT or o is builtins.int
    def __hash__(cls):
        return hash(builtins.int)

class IntT(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if isinstance(x, SymReal):
            return x.__trunc__()
        if isinstance(x, str):
            if base is None and sym.E is not None:
                v = sym.E.parse_numeral(x)
                if v is not None:
                    return v
            return builtins.int(x) if base is None else builtins.int(x, base)
        if not isinstance(x, (builtins.int, builtins.float)) and hasattr(type(x), '__int__'):
            v = x.__int__()
            return v if isinstance(v, SymReal) else builtins.int(v)
        return builtins.int(x)

IntT.__name__ = 'int'
IntT.from_bytes = builtins.int.from_bytes

def ensure_exact(x):
    """exact scalar or the object itself"""
    if isinstance(x, (builtins.float, _np.floating)):
        f = builtins.float(x)
        if f != f or f in (builtins.float('inf'), -builtins.float('inf')):
            return x
        return to_fraction(f)
    if isinstance(x, _np.integer):
        return int(x)
    return x

def true_div(a, b):
    a, b = ensure_exact(a), ensure_exact(b)
    if isinstance(a, builtins.int) and isinstance(b, builtins.int):
        return Fraction(int(a), int(b))
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        return obj_array(a)/obj_array(b) if isinstance(b, _np.ndarray) and isinstance(a, _np.ndarray) else \
            (obj_array(a)/b if isinstance(a, _np.ndarray) else a/obj_array(b))
    return a/b

def obj_array(a):
    if isinstance(a, _np.ndarray):
        if a.dtype == object:
            return a
        if a.dtype.kind in 'iuf':
            r = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(a.shape):
                r[i] = to_fraction(a[i])
            return r
    return a

def idiv(a, b):
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return operator.itruediv(a, ensure_exact(b))
    if hasattr(type(a), '__itruediv__') and not isinstance(a, _np.ndarray):
        return operator.itruediv(a, b)
    return true_div(a, b)

def power(a, b):
    a, b = ensure_exact(a), ensure_exact(b)
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        if not isinstance(a, SymReal):
            return lift(a)**b
        return a**b
    if isinstance(a, (builtins.int, Fraction)) and isinstance(b, Fraction):
        if b.denominator == 1:
            return Fraction(a)**int(b)
        if b == Fraction(1, 2):
            return sym.sqrt(a)
        raise Unsupported('power')
    if isinstance(a, builtins.int) and isinstance(b, builtins.int) and b < 0:
        return Fraction(a)**b
    return a**b

def const(text):
    if 'j' in text:
        return complex(text)
    f = builtins.float(text)
    if f in (builtins.float('inf'),):
        return f
    return Fraction(text)

####################################################################################################

def _num1(f, exactf):
    def g(x):
        if isinstance(x, _np.ndarray) and x.shape != ():
            return elementwise(g, x)
        if isinstance(x, SymReal):
            return f(x)
        v = exact(x)
        if v is None and isinstance(x, str):
            raise TypeError('must be real number, not str')
        if v is None and hasattr(x, '__float__'):
            v = exact(x.__float__())
        if v is None:
            raise TypeError(f'must be real number, not {type(x).__name__}')
        return simp(f(lift(v)))
    return g

def simp(x):
    if isinstance(x, SymReal) and x.op == 'const':
        return x.a
    return x

class MathShim:
    def __init__(self):
        self.sqrt = _num1(sym.sqrt, True)
        self.cos = _num1(sym.cos, True)
        self.sin = _num1(sym.sin, True)
        self.tan = _num1(sym.tan, True)
        self.acos = _num1(sym.acos, True)
        self.asin = _num1(sym.asin, True)
        self.atan = _num1(sym.atan, True)
        self.radians = _num1(sym.radians, True)
        self.degrees = _num1(sym.degrees, True)
        self.fabs = _num1(abs, True)
        self.floor = _num1(sym.floor_sym, True)
        self.ceil = _num1(lambda x: -sym.floor_sym(-x), True)
        self.trunc = _num1(lambda x: x.__trunc__(), True)
    def atan2(self, y, x):
        return simp(sym.atan2(y, x))
    def copysign(self, x, y):
        return simp(sym.copysign(lift(exact(x)), lift(exact(y))))
    def hypot(self, *xs):
        return simp(sym.hypot(*[lift(exact(x)) for x in xs]))
    def dist(self, p, q):
        return simp(sym.hypot(*[lift(exact(a)) - b for a, b in zip(p, q)]))
    def pow(self, a, b):
        return power(exact(a), exact(b))
    def fsum(self, xs):
        return sum(xs, Fraction(0))
    def isclose(self, a, b, *, rel_tol=Fraction(1, 10**9), abs_tol=0):
        a, b = lift(exact(a)), lift(exact(b))
        m = max(abs(a), abs(b))
        return abs(a - b) <= max(m*to_fraction(rel_tol), lift(to_fraction(abs_tol)))
    def isnan(self, x):
        if isinstance(x, (SymReal, Fraction)): return False
        return _math.isnan(x)
    def isinf(self, x):
        if isinstance(x, (SymReal, Fraction)): return False
        return _math.isinf(x)
    def isfinite(self, x):
        if isinstance(x, (SymReal, Fraction)): return True
        return _math.isfinite(x)
    @property
    def pi(self):
        return sym.pi()
    @property
    def tau(self):
        return sym.pi()*2
    def __getattr__(self, name):
        f = getattr(_math, name)
        if not callable(f):
            return f
        def g(*args, **kw):
            if any(isinstance(a, SymReal) for a in args):
                raise Unsupported(f'math.{name} of a symbolic number')
            r = f(*args, **kw)
            return ensure_exact(r)
        return g

####################################################################################################

def elementwise(f, a):
    a = _np.asarray(a, dtype=object) if not isinstance(a, _np.ndarray) else a
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        r[i] = f(a[i])
    return r

FLOATS = (FloatT, builtins.float, _np.float64, 'float', 'float64', 'd', _np.float32)
INTS = (IntT, builtins.int, _np.int64, 'int', _np.int32)

def _is(t, group):
    return any(t is g or (isinstance(t, str) and t == g) for g in group)

def _nested(x):
    """convert iterables to nested lists for numpy"""
    if isinstance(x, _np.ndarray):
        return x
    return x

def make_array(obj, dtype=None, copy=True, **kw):
    if dtype is None:
        if isinstance(obj, _np.ndarray):
            a = _np.array(obj, copy=copy)
            return a
        a = _np.array(obj, dtype=object)
        flat = [ensure_exact(v) for v in a.reshape(-1)]
        if any(isinstance(v, (SymReal, Fraction)) for v in flat):
            r = _np.empty(len(flat), dtype=object)
            for i, v in enumerate(flat):
                r[i] = Fraction(v) if isinstance(v, builtins.int) and not isinstance(v, bool) else v
            return r.reshape(a.shape)
        return _np.array(obj)
    if isinstance(dtype, _np.dtype):
        if dtype.kind == 'f':
            dtype = FloatT
        elif dtype.kind == 'i':
            dtype = IntT
        elif dtype.kind == 'O':
            return _np.array(obj, dtype=object)
    if _is(dtype, FLOATS):
        a = _np.array(obj, dtype=object)
        return elementwise(FloatT, a) if a.shape else FloatT(obj)
    if _is(dtype, INTS):
        a = _np.array(obj, dtype=object)
        if any(is_symbolic(v) for v in a.reshape(-1)):
            return elementwise(IntT, a)
        return elementwise(IntT, a).astype(object)
    return _np.array(obj, dtype=dtype)

class Linalg:
    def norm(self, x, ord=None, axis=None):
        if ord is not None or axis is not None:
            raise Unsupported('linalg.norm with options')
        return simp(sym.hypot(*[lift(exact(v)) for v in _np.array(list(x), dtype=object).reshape(-1)]))
    def det(self, m):
        m = _np.asarray(m, dtype=object)
        return simp(lift(_det([list(map(exact, r)) for r in m])))
    def inv(self, m):
        m = _np.asarray(m, dtype=object)
        rows = [[lift(exact(v)) for v in r] for r in m]
        n = len(rows)
        d = lift(_det(rows))
        if d == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        out = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = [[rows[a][b] for b in range(n) if b != i] for a in range(n) if a != j]
                c = lift(_det(minor)) if minor else lift(1)
                out[i, j] = simp((c if (i + j) % 2 == 0 else -c)/d)
        return out
    def solve(self, a, b):
        return self.inv(a) @ _np.asarray(b, dtype=object)
    def __getattr__(self, name):
        return getattr(_np.linalg, name)

def _det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0]*m[1][1] - m[0][1]*m[1][0]
    r = 0
    for j in range(n):
        t = m[0][j]*_det([row[:j] + row[j+1:] for row in m[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r

def _obj(x):
    return obj_array(x) if isinstance(x, _np.ndarray) else make_array(x)

class NumpyShim:
    float = FloatT
    float64 = FloatT
    float_ = FloatT
    double = FloatT
    int = IntT
    int_ = IntT
    int64 = IntT
    ndarray = _np.ndarray
    newaxis = None
    inf = builtins.float('inf')
    nan = builtins.float('nan')
    def __init__(self):
        self.linalg = Linalg()
        m = MATH
        for n in ('sqrt', 'cos', 'sin', 'tan', 'radians', 'degrees', 'floor', 'ceil', 'fabs', 'trunc'):
            setattr(self, n, getattr(m, n))
        self.deg2rad, self.rad2deg = m.radians, m.degrees
        self.arccos, self.arcsin, self.arctan = m.acos, m.asin, m.atan
        self.arctan2 = m.atan2
        self.hypot = m.hypot
        self.abs = self.absolute = _num1(abs, True)
        self.rint = _num1(lambda x: sym.round_sym(x, None), True)
        self.array = make_array
    @property
    def pi(self):
        return sym.pi()
    def asarray(self, x, dtype=None):
        if isinstance(x, _np.ndarray) and x.dtype == object and (dtype is None or _is(dtype, FLOATS)):
            return x
        return make_array(x, dtype)
    def zeros(self, shape, dtype=FloatT, **kw):
        r = _np.empty(shape, dtype=object)
        r.fill(Fraction(0) if _is(dtype, FLOATS) else 0)
        return r
    def ones(self, shape, dtype=FloatT, **kw):
        r = _np.empty(shape, dtype=object)
        r.fill(Fraction(1) if _is(dtype, FLOATS) else 1)
        return r
    def empty(self, shape, dtype=FloatT, **kw):
        return self.zeros(shape, dtype)
    def full(self, shape, v, dtype=None):
        r = _np.empty(shape, dtype=object)
        r.fill(exact(v))
        return r
    def identity(self, n, dtype=FloatT):
        r = self.zeros((n, n))
        for i in range(n):
            r[i, i] = Fraction(1)
        return r
    def eye(self, n, *a, **k):
        if a or k:
            raise Unsupported('np.eye options')
        return self.identity(n)
    def zeros_like(self, a):
        return self.zeros(_np.shape(a))
    def ones_like(self, a):
        return self.ones(_np.shape(a))
    def dot(self, a, b):
        return simp(_np.dot(_obj(a), _obj(b)))
    def matmul(self, a, b):
        return _np.dot(_obj(a), _obj(b))
    def inner(self, a, b):
        return simp(_np.inner(_obj(a), _obj(b)))
    def vdot(self, a, b):
        return simp(_np.dot(_obj(a), _obj(b)))
    def cross(self, a, b):
        a, b = _obj(a), _obj(b)
        if a.shape == (2,) and b.shape == (2,):
            return a[0]*b[1] - a[1]*b[0]
        return _np.cross(a, b)
    def sum(self, a, *args, **kw):
        return simp(_np.sum(_obj(a), *args, **kw))
    def square(self, x):
        return x*x
    def sign(self, x):
        x = lift(exact(x))
        return 1 if x > 0 else (-1 if x < 0 else 0)
    def copysign(self, a, b):
        return MATH.copysign(a, b)
    def isclose(self, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        rtol, atol = exact(rtol), exact(atol)
        if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
            raise Unsupported('np.isclose of arrays')
        a, b = lift(exact(a)), lift(exact(b))
        return abs(a - b) <= atol + rtol*abs(b)
    def allclose(self, a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8), equal_nan=False):
        xa = _np.array(list(a) if _np.iterable(a) else [a], dtype=object).reshape(-1)
        xb = _np.array(list(b) if _np.iterable(b) else [b], dtype=object).reshape(-1)
        if len(xb) == 1 and len(xa) > 1:
            xb = [xb[0]]*len(xa)
        if len(xa) != len(xb):
            raise ValueError('operands could not be broadcast together')
        for x, y in zip(xa, xb):
            if not self.isclose(x, y, rtol, atol):
                return False
        return True
    def array_equal(self, a, b):
        a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
        if a.shape != b.shape:
            return False
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if not (x == y):
                return False
        return True
    def clip(self, x, lo, hi):
        return min(max(x, lo), hi)
    def linspace(self, a, b, n=50):
        a, b = exact(a), exact(b)
        return make_array([a + (b - a)*Fraction(i, n-1) for i in range(n)], FloatT)
    def maximum(self, a, b):
        return max(a, b)
    def minimum(self, a, b):
        return min(a, b)
    def iterable(self, x):
        return _np.iterable(x)
    def power(self, a, b):
        return power(a, b)
    def __getattr__(self, name):
        f = getattr(_np, name)
        if callable(f) and not isinstance(f, type):
            def g(*args, **kw):
                try:
                    return f(*args, **kw)
                except TypeError as e:
                    if 'loop of ufunc' in str(e) or 'not supported for the input types' in str(e):
                        raise Unsupported(f'np.{name}: {e}')
                    raise
            return g
        return f

MATH = MathShim()
NUMPY = NumpyShim()

def shim_pow(a, b, m=None):
    if m is not None:
        return builtins.pow(a, b, m)
    return power(a, b)

def shim_round(x, n=None):
    x = ensure_exact(x)
    if isinstance(x, SymReal):
        return sym.round_sym(x, n)
    if isinstance(x, Fraction):
        return builtins.round(x) if n is None else Fraction(builtins.round(x, n))
    return builtins.round(x) if n is None else builtins.round(x, n)

def _extremum(kind, original):
    def f(*args, **kw):
        if kw or not (sym.E is not None and sym.E.extrema):
            return original(*args, **kw)
        items = list(args[0]) if len(args) == 1 else args
        if not items or not any(isinstance(x, SymReal) for x in items) or not all(sym.is_num(x) or isinstance(x, SymReal) for x in items):
            return original(*args) if len(args) > 1 else original(items)
        r = items[0]
        for x in items[1:]:
            r = sym.extremum(kind, r, x)
        return r
    return f

def _itself(x):
    return x

def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'math':
            return MATH
        if name == 'numpy':
            return NUMPY
        if name == 'numpy.linalg' and fromlist:
            return NUMPY.linalg
        if name == 'numpy.linalg':
            return NUMPY
        if name.split('.')[0] == 'sympy':
            from .algebra import SYMPY
            r = SYMPY
            for n in name.split('.')[1:] if fromlist else ():
                r = getattr(r, n)
            return r
        if name == 'yaml':
            from .algebra import YAML
            return YAML
    return builtins.__import__(name, globals, locals, fromlist, level)

def shim_compile(source, filename, mode, *args, **kw):
    """compile() at run time gets the rewriting of the modules"""
    import ast
    import copy
    from .load import Exact
    text = source if isinstance(source, str) else ''
    tree = ast.parse(source, filename, mode) if isinstance(source, str) else copy.deepcopy(source)
    tree = ast.fix_missing_locations(Exact(text).visit(tree))
    return builtins.compile(tree, filename, mode, *args, **kw)

def shim_eval(source, *namespaces):
    import sys
    if isinstance(source, str):
        source = shim_compile(source.strip(), '<string>', 'eval')
    if not namespaces:
        f = sys._getframe(1)
        namespaces = (f.f_globals, f.f_locals)
    g = namespaces[0]
    if '__builtins__' not in g:
        from . import load
        g['__builtins__'] = load.builtins_of_module()
    return builtins.eval(source, *namespaces)

BUILTINS = dict(vars(builtins))
BUILTINS.update({
    'float': FloatT, 'int': IntT, 'pow': shim_pow, 'round': shim_round,
    'min': _extremum('min', builtins.min), 'max': _extremum('max', builtins.max), '__import__': shim_import, 'compile': shim_compile, 'eval': shim_eval,
})
