"""Symbolic reals and booleans, path engine, and discharge of obligations."""

import math as _math
import time
from fractions import Fraction

import z3

from . import poly
from .poly import Rat

class CutPath(BaseException):
    """the current path ends here (infeasible, assumption false, or loop iteration verified)"""

class Unsupported(BaseException):
    """the code leaves the supported subset"""

class PathBudget(BaseException):
    pass

####################################################################################################

E = None   # current engine

def engine():
    return E

def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    f = float(x)
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non finite float')
    g = Fraction(f)
    if g.denominator > 1 << 12:
        h = g.limit_denominator(10000)
        if float(h) == f:
            return h
        h = Fraction(repr(f))
        return h
    return g

def is_num(x):
    import numbers
    import numpy
    return isinstance(x, (int, float, Fraction, numpy.floating, numpy.integer)) and not isinstance(x, SymReal)

def lift(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal('const', Fraction(1 if bool(x) else 0))
    import numpy
    if isinstance(x, numpy.ndarray) and x.shape == ():
        return lift(x.item())
    if is_num(x):
        return SymReal('const', to_fraction(x))
    return None

_zero_rules = {}

class SymReal:

    __slots__ = ('op', 'a', 'b', '_nf', '_z', '_h')

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b
        self._nf = None
        self._z = None

    # -------- constructors
    @staticmethod
    def var(name):
        return SymReal('atom', name)

    # -------- normal form
    def nf(self):
        if self._nf is None:
            op = self.op
            if op == 'const':
                self._nf = Rat.const(self.a)
            elif op == 'atom':
                self._nf = Rat.atom(self.a)
            elif op == 'rat':
                self._nf = self.a
            elif op == '+':
                self._nf = self.a.nf() + self.b.nf()
            elif op == '-':
                self._nf = self.a.nf() - self.b.nf()
            elif op == '*':
                self._nf = self.a.nf()*self.b.nf()
            elif op == '/':
                self._nf = self.a.nf()/self.b.nf()
            elif op == 'neg':
                self._nf = -self.a.nf()
            else:
                raise RuntimeError(op)
        return self._nf

    def z(self):
        if self._z is None:
            op = self.op
            if op == 'const':
                f = self.a
                self._z = z3.RealVal(f'{f.numerator}/{f.denominator}')
            elif op == 'atom':
                self._z = zatom(self.a)
            elif op == 'rat':
                self._z = zrat(self.a)
            elif op == '+':
                self._z = self.a.z() + self.b.z()
            elif op == '-':
                self._z = self.a.z() - self.b.z()
            elif op == '*':
                self._z = self.a.z()*self.b.z()
            elif op == '/':
                self._z = self.a.z()/self.b.z()
            elif op == 'neg':
                self._z = -self.a.z()
        return self._z

    def const_value(self):
        """Fraction if this is a known constant else None"""
        if self.op == 'const':
            return self.a
        if self.op == 'atom':
            return None
        try:
            r = self.nf()
        except poly.TooBig:
            return None
        if r.is_const():
            return r.value()
        return None

    # -------- arithmetic
    def _bin(self, op, o, swap=False):
        import numpy
        if isinstance(o, numpy.ndarray) and o.shape != ():
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        if a.op == 'const' and b.op == 'const':
            x, y = a.a, b.a
            if op == '+':
                return SymReal('const', x+y)
            if op == '-':
                return SymReal('const', x-y)
            if op == '*':
                return SymReal('const', x*y)
            if op == '/':
                if y == 0:
                    raise ZeroDivisionError('division by zero')
                return SymReal('const', x/y)
        if op == '+':
            if a.op == 'const' and a.a == 0:
                return b
            if b.op == 'const' and b.a == 0:
                return a
        elif op == '-':
            if b.op == 'const' and b.a == 0:
                return a
        elif op == '*':
            for x, y in ((a, b), (b, a)):
                if x.op == 'const':
                    if x.a == 0:
                        return SymReal('const', Fraction(0))
                    if x.a == 1:
                        return y
        elif op == '/':
            if b.op == 'const':
                if b.a == 0:
                    raise ZeroDivisionError('division by zero')
                if b.a == 1:
                    return a
            else:
                if SymBool.cmp('==', b):
                    raise ZeroDivisionError('division by zero')
        return SymReal(op, a, b)

    def __add__(self, o): return self._bin('+', o)
    def __radd__(self, o): return self._bin('+', o, True)
    def __sub__(self, o): return self._bin('-', o)
    def __rsub__(self, o): return self._bin('-', o, True)
    def __mul__(self, o): return self._bin('*', o)
    def __rmul__(self, o): return self._bin('*', o, True)
    def __truediv__(self, o): return self._bin('/', o)
    def __rtruediv__(self, o): return self._bin('/', o, True)
    def __neg__(self):
        if self.op == 'const':
            return SymReal('const', -self.a)
        return SymReal('neg', self)
    def __pos__(self): return self
    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def __pow__(self, n):
        if isinstance(n, SymReal):
            n = n.const_value()
            if n is None:
                raise Unsupported('symbolic exponent')
        n = to_fraction(n)
        if n.denominator == 1:
            k = int(n)
            if abs(k) > 12:
                raise Unsupported('large exponent')
            r = SymReal('const', Fraction(1))
            for _ in range(abs(k)):
                r = r*self
            if k < 0:
                r = 1/r
            return r
        if n == Fraction(1, 2):
            return sqrt(self)
        if n == Fraction(3, 2):
            return self*sqrt(self)
        raise Unsupported('power')

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __floordiv__(self, o):
        return floor_sym(self/o)
    def __rfloordiv__(self, o):
        return floor_sym(lift(o)/self)
    def __mod__(self, o):
        return self - floor_sym(self/o)*o
    def __rmod__(self, o):
        o = lift(o)
        return o - floor_sym(o/self)*self
    def __divmod__(self, o):
        q = floor_sym(self/o)
        return q, self - q*o
    def __rdivmod__(self, o):
        o = lift(o)
        return divmod(o, self)

    # -------- comparison
    def _cmp(self, op, o, swap=False):
        if isinstance(o, float) and o in (float('inf'), -float('inf')):
            # every number lies between the infinities
            return op != '==' and (o > 0) != swap
        o = lift(o)
        if o is None:
            return NotImplemented
        d = (o - self) if swap else (self - o)
        return SymBool.cmp(op, d)

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('<', o, True)
    def __ge__(self, o): return self._cmp('<=', o, True)
    def __eq__(self, o):
        return self._cmp('==', o)
    def __ne__(self, o):
        r = self._cmp('==', o)
        if r is NotImplemented:
            return NotImplemented
        if isinstance(r, bool):
            return not r
        return Not(r)
    def __hash__(self):
        v = self.const_value()
        if v is not None:
            return hash(v)
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return bool(self != 0)

    # -------- conversions
    def __float__(self):
        v = self.const_value()
        if v is not None:
            return float(v)
        raise Unsupported('float() of a symbolic number in C code')
    def __int__(self):
        v = self.const_value()
        if v is not None:
            return int(v)
        raise Unsupported('int() of a symbolic number in C code')
    def __index__(self):
        v = self.const_value()
        if v is not None and v.denominator == 1:
            return int(v)
        # case split on the value
        for k in range(33):
            if self == k:
                return k
        for k in range(-1, -9, -1):
            if self == k:
                return k
        raise Unsupported('symbolic index')
    def __round__(self, n=None):
        return round_sym(self, n)
    def __floor__(self): return floor_sym(self)
    def __ceil__(self): return -floor_sym(-self)
    def __trunc__(self):
        if is_integral(self):
            return self
        if self >= 0:
            return floor_sym(self)
        return -floor_sym(-self)

    # numpy object loops look these up
    def sqrt(self): return sqrt(self)
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def tan(self): return sin(self)/cos(self)
    def arctan(self): return atan(self)
    def arccos(self): return acos(self)
    def arcsin(self): return asin(self)
    def radians(self): return radians(self)
    def deg2rad(self): return radians(self)
    def degrees(self): return degrees(self)
    def rad2deg(self): return degrees(self)
    def rint(self): return round_sym(self, None)
    def floor(self): return floor_sym(self)
    def ceil(self): return -floor_sym(-self)
    def fabs(self): return abs(self)
    def square(self): return self*self
    def conjugate(self): return self
    def item(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def is_integer(self):
        raise Unsupported('is_integer')

    def __str__(self):
        v = self.const_value()
        if v is not None:
            return str(v)
        return E.opaque_numeral(self)
    def __repr__(self):
        return self.__str__()
    def __format__(self, spec):
        if spec:
            return E.opaque_formatted(self, spec)
        return str(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

def show(x):
    """debugging text of a symbolic number"""
    if isinstance(x, SymReal):
        return str(x.z())
    return str(x)

def zatom(name):
    if name in E.int_atoms:
        return z3.ToReal(z3.Int(name))
    return z3.Real(name)

def zpoly(p):
    if not p:
        return z3.RealVal(0)
    terms = []
    for m, c in sorted(p.items()):
        t = None
        for v, e in m:
            x = zatom(v)
            for _ in range(e):
                t = x if t is None else t*x
        if t is None:
            t = z3.RealVal(f'{c.numerator}/{c.denominator}')
        elif c != 1:
            t = z3.RealVal(f'{c.numerator}/{c.denominator}')*t
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)

def zrat(r):
    n = zpoly(r.n)
    if poly.is_const(r.d):
        c = poly.const_value(r.d)
        return n if c == 1 else n/z3.RealVal(f'{c.numerator}/{c.denominator}')
    return n/zpoly(r.d)

####################################################################################################

class SymBool:

    """A boolean: either a comparison  diff op 0  or a z3 formula built from them"""

    __slots__ = ('op', 'd', '_z', 'parts')

    def __init__(self, op, d=None, z=None, parts=None):
        self.op, self.d, self._z, self.parts = op, d, z, parts

    @staticmethod
    def cmp(op, d):
        v = d.const_value()
        if v is not None:
            return {'<': v < 0, '<=': v <= 0, '==': v == 0}[op]
        return SymBool(op, d)

    def z(self):
        if self._z is None:
            if self.op in ('<', '<=', '=='):
                x = self.d.z()
                zero = z3.RealVal(0)
                self._z = {'<': x < zero, '<=': x <= zero, '==': x == zero}[self.op]
            elif self.op == 'not':
                self._z = z3.Not(zb(self.parts[0]))
            elif self.op == 'and':
                self._z = z3.And([zb(p) for p in self.parts])
            elif self.op == 'or':
                self._z = z3.Or([zb(p) for p in self.parts])
            elif self.op == 'atom':
                self._z = z3.Bool(self.d)
        return self._z

    def __invert__(self):
        if self.op == 'not':
            return self.parts[0]
        return SymBool('not', parts=[self])
    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__
    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__
    def __xor__(self, o):
        return bool(self) != bool(o)
    __rxor__ = __xor__
    def __bool__(self):
        return E.decide(self)
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return bool(self) == bool(o)
        if is_num(o):
            return int(bool(self)) == o
        return False
    def __ne__(self, o):
        return not (self == o)
    def __hash__(self):
        return hash(bool(self))
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __sub__(self, o): return int(bool(self)) - (int(bool(o)) if isinstance(o, (bool, SymBool)) else o)
    def __rsub__(self, o): return o - int(bool(self))
    def __mul__(self, o): return int(bool(self)) * (int(bool(o)) if isinstance(o, (bool, SymBool)) else o)
    __rmul__ = __mul__
    def __neg__(self): return -int(bool(self))
    def __lt__(self, o): return int(bool(self)) < o
    def __le__(self, o): return int(bool(self)) <= o
    def __gt__(self, o): return int(bool(self)) > o
    def __ge__(self, o): return int(bool(self)) >= o
    def __str__(self): return str(bool(self))
    def logical_not(self): return ~self

def zb(x):
    if isinstance(x, SymBool):
        return x.z()
    return z3.BoolVal(bool(x))

def And(*xs):
    parts = []
    for x in xs:
        if isinstance(x, SymBool):
            parts.append(x)
        elif not x:
            return False
    if not parts:
        return True
    return parts[0] if len(parts) == 1 else SymBool('and', parts=parts)

def Or(*xs):
    parts = []
    for x in xs:
        if isinstance(x, SymBool):
            parts.append(x)
        elif x:
            return True
    if not parts:
        return False
    return parts[0] if len(parts) == 1 else SymBool('or', parts=parts)

def Not(x):
    return ~x if isinstance(x, SymBool) else (not x)

def Implies(a, b):
    return Or(Not(a), b)

def Iff(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    return And(Implies(a, b), Implies(b, a))

####################################################################################################
# transcendental functions: fresh atoms with defining facts

def new_atom(prefix, integer=False):
    E.counter += 1
    name = f'{prefix}!{E.counter}'
    if integer:
        E.int_atoms.add(name)
    return SymReal.var(name)

def fact(b):
    E.facts.append(zb(b))

def reduced(x):
    """normal form modulo the square rules, as a SymReal"""
    r = x.nf()
    n = poly.rewrite(r.n, E.rules)
    d = poly.rewrite(r.d, E.rules)
    return SymReal('rat', n/d)

def exact_sqrt(v):
    n, d = _math.isqrt(v.numerator), _math.isqrt(v.denominator)
    if n*n == v.numerator and d*d == v.denominator:
        return Fraction(n, d)
    return None

def poly_sqrt(p):
    """q with q*q == p, or None"""
    if not p:
        return {}
    if len(p) > 400:
        return None
    for m, c in p.items():
        pass
    order = sorted({v for m in p for v, _ in m})
    key = poly._lexkey(order)
    lead = max(p, key=key)
    if any(e % 2 for _, e in lead):
        return None
    c = exact_sqrt(p[lead]) if p[lead] > 0 else None
    if c is None:
        return None
    low = min(p, key=key)
    if any(e % 2 for _, e in low):
        return None
    q = {tuple((v, e//2) for v, e in lead): c}
    lq = next(iter(q))
    r = poly.sub(p, poly.mul(q, q))
    steps = 0
    while r:
        steps += 1
        if steps > 60:
            return None
        lr = max(r, key=key)
        m = poly.mono_div(lr, lq)
        if m is None or m in q:
            return None
        t = {m: r[lr]/(2*c)}
        r = poly.sub(r, poly.add(poly.mul(poly.mul(poly.const(2), q), t), poly.mul(t, t)))
        q = poly.add(q, t)
    return q

def _sqrt_poly(p):
    """square root of a polynomial (normal form) that is not negative"""
    if poly.is_const(p):
        return lift(sqrt(poly.const_value(p)))
    lead = abs(p[poly.leading(p)])
    # rational square content
    c = lead
    k = exact_sqrt(c)
    if k is not None and c != 1:
        return _sqrt_poly({m: x/c for m, x in p.items()})*k
    q = poly_sqrt(p)
    if q is not None:
        r = SymReal('rat', Rat(q))
        return abs(r)
    key = tuple(sorted(p.items()))
    if key in E.sqrt_cache:
        return E.sqrt_cache[key]
    # product of the radicands of known roots
    known = [(y, d) for y, d in E.sqrt_poly]
    for i, (y1, d1) in enumerate(known[-12:]):
        f = poly.exact_div(p, d1) if len(d1) <= len(p) else None
        if f:
            for y2, d2 in known[-12:]:
                g = poly.exact_div(f, d2) if len(d2) <= len(f) + 2 else None
                if g and poly.is_const(g):
                    s = exact_sqrt(poly.const_value(g)) if poly.const_value(g) > 0 else None
                    if s is not None:
                        return y1*y2*s
            h = poly_sqrt(f)
            if h is not None:
                return y1*abs(SymReal('rat', Rat(h)))
    x = SymReal('rat', Rat(p))
    y = new_atom('sqrt')
    E.counter_rank += 1
    E.rules[y.a] = (E.counter_rank, Rat(p))
    fact(SymBool('<=', -y))
    E.facts.append(y.z()*y.z() == x.z())
    E.sqrt_cache[key] = y
    E.sqrt_poly.append((y, p))
    E.atom_def[y.a] = ('sqrt', x)
    return y

def sqrt(x, nonneg=False):
    if not isinstance(x, SymReal):
        v = to_fraction(x)
    else:
        v = x.const_value()
    if v is not None:
        if v < 0:
            raise ValueError('math domain error')
        s = exact_sqrt(v)
        if s is not None:
            return s
        key = ('c', v)
        if key not in E.sqrt_cache:
            y = new_atom('sqrt')
            E.counter_rank += 1
            E.rules[y.a] = (E.counter_rank, Rat.const(v))
            fact(SymBool('<=', -y))
            E.facts.append(y.z()*y.z() == lift(v).z())
            E.sqrt_cache[key] = y
            E.atom_def[y.a] = ('sqrt', lift(v))
        return E.sqrt_cache[key]
    try:
        x = reduced(x)
        v = x.const_value()
        if v is not None:
            return sqrt(v)
        r = x.nf()
        n, d = r.n, r.d
        if poly.is_const(d):
            n = {m: c/poly.const_value(d) for m, c in n.items()}
            d = poly.const(1)
        key = ('r', r.key())
        if key in E.sqrt_cache:
            return E.sqrt_cache[key]
        if not nonneg and (poly_sqrt(n) is None or not poly.is_const(d)):
            if x < 0:
                raise ValueError('math domain error')
        if not poly.is_const(d):
            if not SymReal('rat', Rat(d)) > 0:
                n, d = poly.neg(n), poly.neg(d)
        y = _sqrt_poly(n)
        if not poly.is_const(d):
            y = y/_sqrt_poly(d)
        E.sqrt_cache[key] = y
        return y
    except poly.TooBig:
        raise Unsupported('normal form too big')

PI_NAME = 'PI'

def pi():
    return SymReal.var(PI_NAME)

def _pi_facts():
    p = z3.Real(PI_NAME)
    return [p > z3.RealVal('31415926535/10000000000'), p < z3.RealVal('31415926536/10000000000')]

def radians(x):
    x = lift(x)
    return x*pi()/180

def degrees(x):
    x = lift(x)
    return x*180/pi()

def _const_trig(k):
    """(cos, sin) of k*pi, exactly, or None"""
    k = k % 2
    table = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
    if k in table:
        c, s = table[k]
        return lift(c), lift(s)
    q = int(k*2)
    r = k - Fraction(q, 2)    # in (0, 1/2)
    h = Fraction(1, 2)
    base = None
    if r == Fraction(1, 4):
        w = sqrt(Fraction(2))*h
        base = (w, w)
    elif r == Fraction(1, 3):
        base = (lift(h), sqrt(Fraction(3))*h)
    elif r == Fraction(1, 6):
        base = (sqrt(Fraction(3))*h, lift(h))
    if base is None:
        return None
    c, s = base
    for _ in range(q):
        c, s = -s, c
    return c, s

def _mul_angle(cs, k):
    c, s = lift(1), lift(0)
    for _ in range(k):
        c, s = c*cs[0] - s*cs[1], c*cs[1] + s*cs[0]
    return c, s

def _atom_angle(key, coef, angle):
    """(cos, sin) for angle = coef*key, coef > 0"""
    lst = E.trig.setdefault(key, [])
    for c0, cs in lst:
        q = coef/c0
        if q.denominator == 1 and q <= 6:
            return _mul_angle(cs, int(q))
    # is an earlier one a multiple of this one?  c0 = q*coef
    c, s = new_atom('cos'), new_atom('sin')
    E.counter_rank += 1
    E.rules[s.a] = (E.counter_rank, (1 - c*c).nf())
    E.facts.append(c.z()*c.z() + s.z()*s.z() == 1)
    E.facts.append(z3.And(c.z() <= 1, c.z() >= -1, s.z() <= 1, s.z() >= -1))
    E.atom_def[c.a] = ('cos', angle)
    E.atom_def[s.a] = ('sin', angle)
    for c0, cs in lst:
        q = c0/coef
        if q.denominator == 1 and q <= 6:
            m = _mul_angle((c, s), int(q))
            fact(m[0] == cs[0])
            fact(m[1] == cs[1])
    lst.append((coef, (c, s)))
    m = key[1]
    if key[0] == 'm' and len(m) == 2 and (PI_NAME, 1) in m and any(v in E.bounded for v, e in m):
        # quadrants of an angle of known range; t: angle in half turns
        v = next(v for v, e in m if v in E.bounded)
        t = zatom(v)*z3.RealVal(f'{coef.numerator}/{coef.denominator}')
        h = z3.Q(1, 2)
        E.facts += [z3.Implies(z3.And(t > 0, t < 1), s.z() > 0), z3.Implies(z3.And(t > -1, t < 0), s.z() < 0),
                    z3.Implies(z3.And(t > -h, t < h), c.z() > 0), z3.Implies(z3.And(t > h, t < 1), c.z() < 0),
                    z3.Implies(z3.And(t > -1, t < -h), c.z() < 0),
                    z3.Implies(t == 0, z3.And(c.z() == 1, s.z() == 0)), z3.Implies(t == h, z3.And(c.z() == 0, s.z() == 1)),
                    z3.Implies(t == -h, z3.And(c.z() == 0, s.z() == -1)),
                    z3.Implies(z3.Or(t == 1, t == -1), z3.And(c.z() == -1, s.z() == 0))]
    return c, s

def _half_angle(a):
    """(cos, sin) of half an angle of the range (-pi, pi]"""
    if a not in E.half_angles:
        c, s = E.angle_atoms[a]
        if c == -1:
            E.half_angles[a] = (lift(0), lift(1))
        else:
            h = sqrt((1 + c)/2, True)
            E.half_angles[a] = (h, s/(2*h))
    return E.half_angles[a]

def cos_sin(x):
    x = lift(x)
    try:
        r = reduced(x).nf()
    except poly.TooBig:
        raise Unsupported('normal form too big')
    if not r.n:
        return lift(1), lift(0)
    C, S = lift(1), lift(0)
    if poly.is_const(r.d):
        dv = poly.const_value(r.d)
        items = [(m, c/dv) for m, c in sorted(r.n.items())]
        parts = [('m', m, c) for m, c in items]
    else:
        lc = r.n[poly.leading(r.n)]
        parts = [('r', Rat({m: c/lc for m, c in r.n.items()}, r.d).key(), lc)]
    for kind, m, c in parts:
        sgn = 1
        cs = None
        if kind == 'm':
            if E.fixed:
                m, c = _fix(m, c)
                if not c:
                    continue
            if m == ((PI_NAME, 1),):
                cs = _const_trig(c)
            elif c.denominator == 1 and c % 2 == 0 and all(v == PI_NAME and e == 1 or v in E.int_atoms for v, e in m) \
                    and (PI_NAME, 1) in m:
                continue
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in E.angle_atoms:
                q = abs(c)
                if q.denominator == 1 and q <= 6:
                    cs = _mul_angle(E.angle_atoms[m[0][0]], int(q))
                    if c < 0:
                        sgn = -1
                elif q == Fraction(1, 2) and E.atom_def[m[0][0]][0] in ('acos', 'asin', 'atan', 'atan2'):
                    cs = _half_angle(m[0][0])
                    if c < 0:
                        sgn = -1
        if cs is None:
            if c < 0:
                sgn = -1
            ang = SymReal('rat', Rat({m: abs(c)})) if kind == 'm' else (x if sgn > 0 else -x)
            cs = _atom_angle((kind, m), abs(c), ang)
        c1, s1 = cs[0], cs[1] if sgn > 0 else -cs[1]
        C, S = C*c1 - S*s1, C*s1 + S*c1
    return C, S

def _fix(m, c):
    """replace the variables whose value the path determines"""
    out = []
    for v, e in m:
        if v in E.fixed:
            c = c*E.fixed[v]**e
        else:
            out.append((v, e))
    return tuple(out), c

def cos(x): return cos_sin(x)[0]
def sin(x): return cos_sin(x)[1]
def tan(x):
    c, s = cos_sin(x)
    return s/c

def _new_angle(name, args, c, s):
    key = (name,) + tuple(lift(a).nf().key() for a in args)
    if key in E.angle_cache:
        return E.angle_cache[key], False
    a = new_atom(name)
    E.angle_atoms[a.a] = (lift(c), lift(s))
    E.atom_def[a.a] = (name, *args)
    E.angle_cache[key] = a
    return a, True

def acos(x):
    x = lift(x)
    x = reduced(x)
    if x > 1 or x < -1:
        raise ValueError('math domain error')
    v = x.const_value()
    if v in (1, 0, -1):
        return lift({1: 0, 0: Fraction(1, 2), -1: 1}[int(v)])*pi()
    s = sqrt(1 - x*x, True)
    a, new = _new_angle('acos', [x], x, s)
    if new:
        p = pi().z()
        z = a.z()
        E.facts += [z >= 0, z <= p, (z == 0) == (x.z() == 1), (z == p) == (x.z() == -1),
                    (2*z < p) == (x.z() > 0), (2*z > p) == (x.z() < 0)]
    return a

def asin(x):
    x = reduced(lift(x))
    if x > 1 or x < -1:
        raise ValueError('math domain error')
    v = x.const_value()
    if v in (1, 0, -1):
        return lift(Fraction(v)/2)*pi()
    c = sqrt(1 - x*x, True)
    a, new = _new_angle('asin', [x], c, x)
    if new:
        p = pi().z()
        z = a.z()
        E.facts += [2*z >= -p, 2*z <= p, (z > 0) == (x.z() > 0), (z < 0) == (x.z() < 0)]
    return a

def atan(x):
    x = reduced(lift(x))
    v = x.const_value()
    if v in (1, 0, -1):
        return lift(Fraction(v)/4)*pi()
    h = sqrt(1 + x*x, True)
    a, new = _new_angle('atan', [x], SymReal('/', lift(1), h), SymReal('/', x, h))
    if new:
        p = pi().z()
        z = a.z()
        E.facts += [2*z > -p, 2*z < p, (z > 0) == (x.z() > 0), (z < 0) == (x.z() < 0),
                    (4*z < p) == (x.z() < 1), (4*z > -p) == (x.z() > -1)]
    return a

def atan2(y, x):
    y, x = reduced(lift(y)), reduced(lift(x))
    if x == 0 and y == 0:
        return Fraction(0)
    h = lift(sqrt(x*x + y*y, True))
    a, new = _new_angle('atan2', [y, x], SymReal('/', x, h), SymReal('/', y, h))
    if new:
        p = pi().z()
        z = a.z()
        E.facts += [z > -p, z <= p, (z > 0) == z3.Or(y.z() > 0, z3.And(y.z() == 0, x.z() < 0)),
                    (z < 0) == (y.z() < 0),
                    (2*z > p) == z3.And(x.z() < 0, y.z() >= 0),
                    (2*z >= p) == z3.Or(z3.And(x.z() < 0, y.z() >= 0), z3.And(x.z() == 0, y.z() > 0)),
                    (2*z < -p) == z3.And(x.z() < 0, y.z() < 0),
                    (2*z <= -p) == z3.And(x.z() <= 0, y.z() < 0),
                    (z == p) == z3.And(x.z() < 0, y.z() == 0)]
    return a

def is_integral(x):
    """a polynomial of whole numbers with whole coefficients"""
    if x.op == 'atom':
        return x.a in E.int_atoms
    if not E.int_atoms:
        return False
    try:
        r = x.nf()
    except poly.TooBig:
        return False
    return (poly.is_const(r.d) and poly.const_value(r.d) == 1 and
            all(c.denominator == 1 and all(v in E.int_atoms for v, e in m) for m, c in r.n.items()))

def is_whole(x):
    """a whole number or its opposite"""
    if x.op == 'atom':
        return x.a in E.int_atoms
    if not E.int_atoms:
        return False
    try:
        r = x.nf()
    except poly.TooBig:
        return False
    return is_integral(x) and len(r.n) == 1 and all(abs(c) == 1 and len(m) == 1 and m[0][1] == 1 for m, c in r.n.items())

def floor_sym(x):
    x = lift(x)
    v = x.const_value()
    if v is not None:
        return int(v.numerator // v.denominator)
    if is_integral(x):
        return x
    key = x.nf().key()
    if key in E.floor_cache:
        return E.floor_cache[key]
    k = new_atom('floor', True)
    E.facts += [k.z() <= x.z(), x.z() < k.z() + 1]
    E.atom_def[k.a] = ('floor', x)
    E.floor_cache[key] = k
    return k

def extremum(kind, a, b):
    """least or greatest of two numbers as one term (no case split)"""
    a, b = lift(a), lift(b)
    d = (a - b).const_value()
    if d is not None:
        return (a if d >= 0 else b) if kind == 'max' else (b if d >= 0 else a)
    key = (kind, *sorted((a.nf().key(), b.nf().key()), key=repr))
    if key in E.floor_cache:
        return E.floor_cache[key]
    m = new_atom(kind)
    za, zb, zm = a.z(), b.z(), m.z()
    E.facts += [zm >= za, zm >= zb] if kind == 'max' else [zm <= za, zm <= zb]
    E.facts += [z3.Or(zm == za, zm == zb)]
    E.atom_def[m.a] = (kind, a, b)
    E.floor_cache[key] = m
    return m

def _leading_sign(x):
    r = x.nf()
    return -1 if r.n and r.n[poly.leading(r.n)] < 0 else 1

def round_sym(x, n):
    # ties go to even: rounding is an odd function, both signs share one atom
    x = lift(x)
    if x.const_value() is None and _leading_sign(x) < 0:
        return -round_sym(-x, n)
    if n is None:
        v = x.const_value()
        if v is not None:
            return round(v)
        if is_integral(x):
            return x
        key = ('rint', x.nf().key())
        if key in E.floor_cache:
            return E.floor_cache[key]
        k = new_atom('rint', True)
        E.facts += [k.z() <= x.z() + z3.RealVal('1/2'), x.z() <= k.z() + z3.RealVal('1/2')]
        E.atom_def[k.a] = ('rint', x)
        E.floor_cache[key] = k
        return k
    v = x.const_value()
    n = int(n)
    if v is not None:
        return Fraction(round(v, n))
    key = ('round', n, x.nf().key())
    if key in E.floor_cache:
        return E.floor_cache[key]
    r = new_atom('round')
    h = Fraction(1, 2)/Fraction(10)**n
    hz = z3.RealVal(f'{h.numerator}/{h.denominator}')
    rz, xz = r.z(), x.z()
    E.facts += [rz - xz <= hz, xz - rz <= hz,
                z3.Implies(z3.And(xz < hz, xz > -hz), rz == 0),
                z3.Implies(xz > hz, rz > 0), z3.Implies(xz < -hz, rz < 0)]
    E.atom_def[r.a] = ('round', x, n)
    E.floor_cache[key] = r
    return r

def copysign(x, y):
    # real semantics: the sign of zero is positive
    a = abs(x)
    y = lift(y)
    if y >= 0:
        return a
    return -a

def hypot(*xs):
    t = lift(0)
    for x in xs:
        t = t + x*x
    return sqrt(t, True)

####################################################################################################

ALL = frozenset((-1, 0, 1))
SETS = {'<': frozenset((-1,)), '<=': frozenset((-1, 0)), '==': frozenset((0,))}

class Engine:

    FEAS_MS = 700

    def __init__(self, max_paths=4000, deadline=None):
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(paths=0, feas=0, solver_s=0., unknown_feas=0)
        self.obligations = []
        self.base = None
        self.reset_path([])

    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.choices = []
        self.pc = []
        self.facts = _pi_facts()
        self.counter = 0
        self.counter_rank = 0
        self.rules = {}
        self.sqrt_cache = {}
        self.sqrt_poly = []
        self.trig = {}
        self.angle_atoms = {}
        self.angle_cache = {}
        self.half_angles = {}
        self.floor_cache = {}
        self.int_atoms = set()
        self.atom_def = {}
        self.signs = {}
        self.boolcache = {}
        self.numerals = {}
        self.numeral_count = 0
        self.inputs = {}
        self.pc_eq = []
        self.whole = []
        self.any_length = False
        self.fixed = {}
        self.bounded = set()
        self.path_sat = None
        self.user = {}
        self.extrema = False
        self.message_numerals = False
        if self.base is not None:
            self.restore(self.base)

    STATE = ('facts', 'counter', 'counter_rank', 'rules', 'sqrt_cache', 'sqrt_poly', 'trig', 'angle_atoms', 'angle_cache', 'half_angles',
             'floor_cache', 'int_atoms', 'atom_def', 'signs')

    def snapshot(self):
        import copy
        return {n: copy.copy(getattr(self, n)) for n in self.STATE}

    def restore(self, base):
        import copy
        for n in self.STATE:
            setattr(self, n, copy.copy(base[n]))
        self.trig = {k: list(v) for k, v in base['trig'].items()}

    # -------- numerals
    def opaque_numeral(self, x):
        """a unique digit string that stands for str(x)"""
        if self.message_numerals:
            # for messages only: it cannot be read back (see parse_numeral)
            self.numeral_count += 1
            return f'9000{self.numeral_count:05d}.0009m'
        key = None
        try:
            key = x.nf().key()
        except poly.TooBig:
            pass
        if key is not None and ('num', key) in self.numerals:
            return self.numerals['num', key]
        if SymBool.cmp('<', x) if x.const_value() is None else x.const_value() < 0:
            t = '-' + self.opaque_numeral(-x)
        else:
            self.numeral_count += 1
            if is_integral(x):
                t = f'9000{self.numeral_count:05d}'
            else:
                t = f'9000{self.numeral_count:05d}.0009'
            self.numerals[t] = x
        if key is not None:
            self.numerals['num', key] = t
        return t

    def opaque_formatted(self, x, spec):
        raise Unsupported(f'formatting a symbolic number with {spec!r}')

    def parse_numeral(self, s):
        t = s.strip()
        neg = False
        if t[:1] in ('+', '-'):
            neg = t[0] == '-'
            t = t[1:]
        if t in self.numerals:
            v = self.numerals[t]
            return -v if neg else v
        if '9000' in t and '0009' in t or t.startswith('9000') and len(t) >= 9:
            raise Unsupported(f'altered symbolic numeral {s!r}')
        return None

    # -------- branching
    def all_assumptions(self):
        return self.facts + self.pc

    def _solver(self, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        return s

    def check(self, extra, ms):
        """sat/unsat/unknown of assumptions + extra"""
        t0 = time.time()
        self.stats['feas'] += 1
        extra = list(extra)
        hyps = self.all_assumptions()
        r = staged_unsat(hyps, extra, 150)
        if r != 'unsat':
            r = quick_check(hyps + extra, ms)
        self.stats['solver_s'] += time.time() - t0
        return r

    def _atom_sign(self, v):
        """1, -1, 2 (not null) or None"""
        if v == PI_NAME:
            return 1
        known = self.signs.get((((((v, 1),), Fraction(1)),), (((), Fraction(1)),)))
        if known is None:
            return None
        if 0 in known or not known:
            return None
        return next(iter(known)) if len(known) == 1 else 2

    def _sign_key(self, d):
        r = d.nf()
        if not r.n:
            return None, 1
        lc = r.n[poly.leading(r.n)]
        s = 1 if lc > 0 else -1
        n = {m: c/lc for m, c in r.n.items()}
        return (tuple(sorted(n.items())), tuple(sorted(r.d.items()))), s

    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        if b.op == 'not':
            return not self.decide(b.parts[0])
        if b.op == 'and':
            for p in b.parts:
                if not self.decide(p):
                    return False
            return True
        if b.op == 'or':
            for p in b.parts:
                if self.decide(p):
                    return True
            return False
        key = None
        if b.op in SETS:
            try:
                d = canon(b.d)
                v = d.const_value()
                if v is not None:
                    return {'<': v < 0, '<=': v <= 0, '==': v == 0}[b.op]
                w = angle_cmp(b.op, d)
                if w is not None:
                    return self.decide(w)
                key, sg = self._sign_key(d)
                known = self.signs.get(key, ALL)
                want = SETS[b.op]
                if sg < 0:
                    want = frozenset(-s for s in want)
                if known <= want:
                    return True
                if not known & want:
                    return False
                if known != frozenset((0,)) and b.op != '==':
                    ps = psd_sign(d)
                    if ps is not None:
                        if ps < 0:
                            ps = frozenset((-1, 0))
                        else:
                            ps = frozenset((0, 1))
                        k2 = known & (ps if sg > 0 else frozenset(-x for x in ps))
                        self.signs[key] = known = k2
                        if known <= want:
                            return True
                        if not known & want:
                            return False
                w = self._whole(b.op, d)
                if w is not None:
                    self.signs[key] = known & want if w else known - want
                    if w and b.op == '==':
                        self.pc.append(b.z())
                        self.note_eq(d)
                    return w
            except poly.TooBig:
                key = None
        else:
            k = b.z().get_id()
            if k in self.boolcache:
                return self.boolcache[k]
        val = self._fork(b if key is None else SymBool(b.op, d))
        if key is not None:
            self.signs[key] = known & want if val else known - want
        elif b.op not in SETS:
            self.boolcache[b.z().get_id()] = val
        return val

    def _is_whole_term(self, d):
        if not self.int_atoms or not is_integral(d):
            return False
        n = d.nf().n
        return len(n) <= 12 and not any(len(m) > 1 or m and m[0][1] != 1 for m in n)

    def _whole_term(self, d):
        """a linear combination of whole numbers, as a term of the solver"""
        if not self._is_whole_term(d):
            return None
        n = d.nf().n
        t = z3.IntVal(0)
        for m, k in n.items():
            t = t + (int(k)*z3.Int(m[0][0]) if m else z3.IntVal(int(k)))
        return t

    def _whole(self, op, d):
        """what the linear relations between whole numbers say (True, False or None)"""
        if not self.any_length or not self.whole:
            return None
        t = self._whole_term(d)
        if t is None:
            return None
        for k, x in enumerate(self.whole):
            if isinstance(x, tuple):
                o, y, v = x
                y = self._whole_term(y)
                y = {'<': y < 0, '<=': y <= 0, '==': y == 0}[o]
                self.whole[k] = y if v else z3.Not(y)
        z = {'<': t < 0, '<=': t <= 0, '==': t == 0}[op]
        for goal, val in ((z3.Not(z), True), (z, False)):
            s = z3.SolverFor('QF_LIA')
            s.set('timeout', 5000)
            s.add(*self.whole)
            s.add(goal)
            if s.check() == z3.unsat:
                return val
        return None

    def _note_whole(self, op, d, val):
        if self.int_atoms and self._is_whole_term(d):
            self.whole.append((op, d, val))

    def _fork(self, b):
        z = b.z()
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.choices.append(val)
            self._assume(b, val)
            return val
        self._tick()
        rt = self.check([z], self.FEAS_MS)
        if rt == 'unsat':
            val = False
            alt = False
        else:
            rf = self.check([z3.Not(z)], self.FEAS_MS)
            if rf == 'unsat':
                val, alt = True, False
            else:
                val, alt = True, True
        if alt:
            self.stack.append(self.choices + [False])
        self.choices.append(val)
        self.pos += 1
        self._assume(b, val)
        return val

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise PathBudget('time')

    def _assume(self, b, val):
        self.pc.append(b.z() if val else z3.Not(b.z()))
        if b.op in SETS:
            self._note_whole(b.op, b.d, val)
        if b.op == '==' and val:
            self.note_eq(b.d)

    def note_eq(self, d):
        """d == 0 on this path"""
        self.pc_eq.append(d)
        n = d.nf().n
        vs = {v for m in n for v, e in m}
        if len(vs) > 1 and (self.trig or self.angle_atoms):
            self._note_angles(d)
        if len(vs) != 1 or any(e != 1 for m in n for v, e in m):
            return
        v = vs.pop()
        if v in self.fixed or v in self.atom_def and self.atom_def[v][0] in ('cos', 'sin') or v == PI_NAME:
            return
        val = -n.get((), Fraction(0))/n[((v, 1),)]
        self.fixed[v] = val
        for key, lst in list(self.trig.items()):
            if key[0] == 'm' and any(w == v for w, e in key[1]):
                for coef, (c, s) in lst:
                    m, k = _fix(key[1], coef)
                    cs = (lift(1), lift(0)) if not k else _const_trig(k) if m == ((PI_NAME, 1),) else None
                    if cs is not None:
                        for a, b in ((c, cs[0]), (s, cs[1])):
                            self.facts.append(a.z() == b.z())
                            self.pc_eq.append(a - b)

    def _note_angles(self, d):
        """d == 0 on this path: if d is a sum of angles whose cosine and sine are known, its cosine is 1 and its sine is 0"""
        if len(d.nf().n) > 4:
            return
        k = next((c for m, c in d.nf().n.items() if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.angle_atoms), None)
        for a in [SymReal('rat', Rat({m: c/k for m, c in d.nf().n.items()}))] if k else [d*pi()/180, d]:
            r = reduced(a).nf()
            if not poly.is_const(r.d):
                continue
            if all(('m', m) in self.trig or m == ((PI_NAME, 1),) or len(m) == 1 and m[0][1] == 1 and m[0][0] in self.angle_atoms for m in r.n):
                try:
                    C, S = cos_sin(a)
                except (Unsupported, CutPath):
                    return
                for x in (C - 1, S):
                    if x.const_value() is None:
                        self.facts.append(x.z() == 0)
                        self.pc_eq.append(x)
                return

    def choose(self, n):
        """n-way branch without solver"""
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.choices.append(val)
            return val
        for k in range(n-1, 0, -1):
            self.stack.append(self.choices + [k])
        self.choices.append(0)
        self.pos += 1
        return 0

    def assume(self, b):
        if isinstance(b, SymBool):
            if b.op == 'and':
                for p in b.parts:
                    self.assume(p)
                return
            if b.op == 'not' and b.parts[0].op == 'or':
                for p in b.parts[0].parts:
                    self.assume(Not(p))
                return
            val = True
            a = b
            if b.op == 'not':
                val, a = False, b.parts[0]
            if a.op in SETS:
                # record the sign knowledge
                try:
                    d = canon(a.d)
                    v = d.const_value()
                    if v is not None:
                        if {'<': v < 0, '<=': v <= 0, '==': v == 0}[a.op] != val:
                            raise CutPath()
                        return
                    w = angle_cmp(a.op, d)
                    if w is not None:
                        self.assume(w if val else Not(w))
                        self.pc.append(b.z())
                        return
                    key, sg = self._sign_key(d)
                    known = self.signs.get(key, ALL)
                    want = SETS[a.op]
                    if sg < 0:
                        want = frozenset(-s for s in want)
                    new = known & want if val else known - want
                    if not new:
                        raise CutPath()
                    if self._whole(a.op, d) is (not val):
                        raise CutPath()
                    self._note_whole(a.op, d, val)
                    self.signs[key] = new
                    if new == frozenset((0,)):
                        self.note_eq(d)
                except poly.TooBig:
                    pass
            self.pc.append(b.z())
        elif not b:
            raise CutPath()

    # -------- exploration
    def explore(self, body):
        """run body() on every path"""
        global E
        self.stack = [[]]
        n = 0
        while self.stack:
            prefix = self.stack.pop()
            self.reset_path(prefix)
            E = self
            n += 1
            self.stats['paths'] += 1
            if n > self.max_paths:
                raise PathBudget(f'more than {self.max_paths} paths')
            self._tick()
            try:
                body()
            except CutPath:
                pass
        E = self

    # -------- proving
    def prove(self, goal, ms=8000):
        """returns (status, backend, model, seconds)
        status: proved / refuted / unknown"""
        t0 = time.time()
        st, be, model = self._prove(goal, ms)
        dt = time.time() - t0
        return st, be, model, dt

    def _prove(self, goal, ms):
        if isinstance(goal, SymBool) and goal.op == 'not' and isinstance(goal.parts[0], SymBool):
            q = goal.parts[0]
            if q.op in ('<', '<='):
                return self._prove(SymBool.cmp('<=' if q.op == '<' else '<', -q.d), ms)
            if q.op == 'or':
                return self._prove(And(*[Not(p) for p in q.parts]), ms)
            if q.op == 'and':
                return self._prove(Or(*[Not(p) for p in q.parts]), ms)
        if not isinstance(goal, SymBool):
            if goal:
                return 'proved', 'evaluation', None
            # must show the path infeasible
            return self._prove_z(z3.BoolVal(False), ms)
        if goal.op == 'and':
            bes = set()
            for p in goal.parts:
                st, be, m = self._prove(p, ms)
                bes.add(be)
                if st != 'proved':
                    return st, be, m
            return 'proved', '+'.join(sorted(bes)), None
        if goal.op == 'or' and any(isinstance(p, SymBool) and p.op == '==' for p in goal.parts):
            for p in goal.parts:
                if p.op == '==' and self._ring(p.d):
                    return 'proved', 'ring', None
        if goal.op == '==':
            if self._ring(goal.d):
                return 'proved', 'ring', None
        if goal.op in SETS:
            try:
                d = canon(goal.d)
                v = d.const_value()
                if v is not None and {'<': v < 0, '<=': v <= 0, '==': v == 0}[goal.op]:
                    return 'proved', 'ring', None
                if self._whole(goal.op, d):
                    return 'proved', 'z3', None
                w = angle_cmp(goal.op, d)
                if w is not None:
                    return self._prove(w, ms)
                key, sg = self._sign_key(d)
                want = SETS[goal.op]
                if sg < 0:
                    want = frozenset(-s for s in want)
                if self.signs.get(key, ALL) <= want:
                    return 'proved', 'path', None
                if goal.op == '<=' and psd_sign(d) == -1:
                    return 'proved', 'ring', None
                if goal.op == '==' and self._same_angle(d):
                    return 'proved', 'angle', None
                if goal.op == '==' and self._same_root(d):
                    return 'proved', 'root', None
                g2 = self._clear_denominator(goal.op, d)
                if g2 is not None:
                    st, be, m = self._prove_z(g2, ms)
                    if st == 'proved':
                        return st, be, m
                    if st == 'refuted':
                        return st, be, m
            except poly.TooBig:
                pass
        return self._prove_z(goal.z(), ms)

    def _clear_denominator(self, op, d):
        r = d.nf()
        if poly.is_const(r.d):
            return zcmp(op, zpoly(r.n))
        if op == '==':
            return zpoly(r.n) == 0
        den = zpoly(r.d)
        if self.check([den <= 0], 500) == 'unsat':
            return zcmp(op, zpoly(r.n))
        if self.check([den >= 0], 500) == 'unsat':
            return zcmp(op, -zpoly(r.n))
        return None

    def _ring(self, d):
        try:
            r = d.nf()
            if poly.is_zero(r, self.rules):
                return True
            if self.pc_eq:
                return self._ring_with_equalities(r)
        except poly.TooBig:
            return False
        return False

    def _ring_with_equalities(self, r):
        """use path equalities that are linear in some variable with a constant coefficient"""
        n = r.n
        eqs = []
        for e in self.pc_eq:
            e = reduced(e).nf()
            eqs.append(e.n)
        for _ in range(len(eqs)):
            used = False
            for p in list(eqs):
                sol = solve_linear(p)
                if sol is None:
                    continue
                v, rhs = sol
                eqs.remove(p)
                n = subst(n, v, rhs)
                eqs = [subst(q, v, rhs) for q in eqs]
                eqs = [q for q in eqs if q]
                used = True
                if poly.is_zero(Rat(n, poly.const(1), True), self.rules):
                    return True
                break
            if not used:
                break
        # n is a multiple of an equality?
        for p in eqs:
            if p and poly.exact_div(n, p) is not None:
                return True
        return False

    def _prove_z(self, z, ms):
        hyps = self.all_assumptions()
        return solve_goal(hyps, z, ms)

    def _same_angle(self, d):
        '''d == 0 for a combination of angles: same cosine and sine, difference smaller than a turn'''
        r = d.nf()
        if not poly.is_const(r.d):
            return False
        names = [m[0][0] for m in r.n if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.angle_atoms]
        k = SymReal('const', Fraction(1))
        if not names:
            # degrees: angle/pi
            names = [v for m in r.n for v, e in m if v in self.angle_atoms]
            if not names:
                return False
        n = names[0]
        c = next(c for m, c in r.n.items() if any(v == n for v, _ in m))
        a = d*(1/(c/poly.const_value(r.d)))
        m = next(m for m in r.n if any(v == n for v, _ in m))
        a = reduced(a)
        if not any(mm == ((n, 1),) for mm in a.nf().n):
            return False
        try:
            C, S = cos_sin(a)
        except (Unsupported, CutPath):
            return False
        if self._prove(S == 0, 2000)[0] != 'proved' or self._prove(C == 1, 2000)[0] != 'proved':
            return False
        two = 2*pi()
        if self._prove_z((a < two).z() if isinstance(a < two, SymBool) else z3.BoolVal(a < two), 3000)[0] != 'proved':
            return False
        return self._prove_z((a > -two).z() if isinstance(a > -two, SymBool) else z3.BoolVal(a > -two), 3000)[0] == 'proved'

    def _same_root(self, d):
        '''d == 0 where d = k*y - t with y a square root: t has the sign of k and t**2 == k**2*y**2'''
        r = d.nf()
        ys = [v for v in r.atoms() if v in self.rules and v.startswith('sqrt!')]
        for y in sorted(ys, key=lambda v: -self.rules[v][0])[:2]:
            if poly.degree_in(r.n, y) != 1:
                continue
            A, B = {}, {}
            for m, c in r.n.items():
                if any(v == y for v, _ in m):
                    A[tuple(x for x in m if x[0] != y)] = c
                else:
                    B[m] = c
            # A*y + B == 0
            a, b = SymReal('rat', Rat(A)), SymReal('rat', Rat(B))
            yy = SymReal.var(y)
            if not self._ring(a*a*yy*yy - b*b):
                continue
            ab = reduced(-a*b)
            st = self._prove(ab >= 0, 3000)[0]
            if st == 'proved':
                # a*y and -b have the same square and the same sign; a == 0 gives b == 0
                return True
        return False

def canon(d):
    '''a normal form with the same sign as d and simpler: positive denominators dropped, roots compared by squares'''
    d = reduced(d)
    r = d.nf()
    for _ in range(3):
        if not poly.is_const(r.d) and len(r.d) == 1:
            (m, c), = r.d.items()
            if all(v == PI_NAME for v, _ in m):
                r = Rat(r.n) if c > 0 else -Rat(r.n)
        if not poly.is_const(r.d) and r.n:
            k, sg = E._sign_key(SymReal('rat', Rat(r.d, None, True)))
            known = E.signs.get(k, ALL)
            if known == frozenset((1,)) or known == frozenset((-1,)):
                t = Rat(r.n)
                r = t if (sg > 0) == (1 in known) else -t
        if not poly.is_const(r.d) or not r.n:
            break
        cm, neg = [], False
        if len(r.n) > 1:
            for v, e in poly.content_mono(r.n):
                k = E._atom_sign(v)
                if k == 1:
                    cm.append((v, e))
                elif k == -1:
                    cm.append((v, e))
                    neg ^= bool(e % 2)
                elif k == 2 and e > 1:
                    cm.append((v, e - e % 2))
        if cm:
            r = Rat({poly.mono_div(m, tuple(cm)): -c if neg else c for m, c in r.n.items()}, r.d)
        roots, rest = [], []
        for m, c in r.n.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in E.rules and m[0][0].startswith('sqrt!'):
                roots.append((m[0][0], c))
            else:
                rest.append((m, c))
        new = None
        if len(roots) == 1 and not rest:
            y, c = roots[0]
            new = SymReal('rat', E.rules[y][1])
            new = new if c > 0 else -new
        elif len(roots) == 1 and len(rest) == 1 and rest[0][0] == ():
            (y, c), b = roots[0], rest[0][1]
            if (c > 0) != (b > 0):
                new = SymReal('rat', E.rules[y][1])*(c*c) - b*b
                new = new if c > 0 else -new
        elif len(roots) == 2 and not rest:
            (y, c), (w, b) = roots
            if (c > 0) != (b > 0):
                new = SymReal('rat', E.rules[y][1])*(c*c) - SymReal('rat', E.rules[w][1])*(b*b)
                new = new if c > 0 else -new
        if new is None:
            break
        r = reduced(new).nf()
    return SymReal('rat', r)

def angle_cmp(op, d):
    """comparison of an inverse trigonometric angle with a multiple of a quarter turn, by its arguments; or None"""
    r = d.nf()
    if not poly.is_const(r.d) or not 1 <= len(r.n) <= 2:
        return None
    c, q = None, Fraction(0)
    for m, k in r.n.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        if m[0][0] == PI_NAME:
            q = k
        elif m[0][0] in E.angle_atoms and c is None:
            name, c = m[0][0], k
        else:
            return None
    if c is None:
        return None
    kind, args = E.atom_def[name][0], E.atom_def[name][1:]
    q = -q/c                       # a op q*pi (op reversed when c < 0)
    op = {'<': '<' if c > 0 else '>', '<=': '<=' if c > 0 else '>=', '==': '=='}[op]
    if kind == 'atan2':
        y, x = args
        def gt(q):      # a > q pi
            if q < -1 or q == -1: return True
            if q >= 1: return False
            if q == Fraction(-1, 2): return Or(y >= 0, x > 0)
            if q == 0: return Or(y > 0, And(y == 0, x < 0))
            if q == Fraction(1, 2): return And(x < 0, y >= 0)
            return None
        def ge(q):
            if q <= -1: return True
            if q > 1: return False
            if q == 1: return And(y == 0, x < 0)
            if q == Fraction(-1, 2): return Or(y >= 0, x >= 0)
            if q == 0: return y >= 0
            if q == Fraction(1, 2): return Or(And(x < 0, y >= 0), And(x == 0, y > 0))
            return None
    elif kind in ('acos', 'asin', 'atan'):
        x, = args
        lo, hi = (Fraction(0), Fraction(1)) if kind == 'acos' else (Fraction(-1, 2), Fraction(1, 2))
        mid = (lo + hi)/2
        def gt(q):
            if q < lo: return True
            if q >= hi: return False
            if q == lo: return True if kind == 'atan' else (x < 1 if kind == 'acos' else x > -1)
            if q == mid: return x < 0 if kind == 'acos' else x > 0
            return None
        def ge(q):
            if q <= lo: return True
            if q > hi: return False
            if q == hi: return False if kind == 'atan' else (x == -1 if kind == 'acos' else x == 1)
            if q == mid: return x <= 0 if kind == 'acos' else x >= 0
            return None
    else:
        return None
    if op == '>':
        return gt(q)
    if op == '>=':
        return ge(q)
    if op == '<':
        g = ge(q)
        return None if g is None else Not(g)
    if op == '<=':
        g = gt(q)
        return None if g is None else Not(g)
    g, h = ge(q), gt(q)
    return None if g is None or h is None else And(g, Not(h))

def psd_sign(d):
    '''1 when the normal form is a non negative quadratic form (affine allowed), -1 when its opposite is, else None'''
    r = d.nf()
    if not poly.is_const(r.d) or not 1 <= len(r.n) <= 120:
        return None
    if any(sum(e for _, e in m) > 2 for m in r.n):
        return None
    lc = None
    for m, c in r.n.items():
        if len(m) == 1 and m[0][1] == 2:
            if lc is not None and (lc > 0) != (c > 0):
                return None
            lc = c
    if lc is None:
        return None
    sg = 1 if lc > 0 else -1
    names = sorted({v for m in r.n for v, _ in m})
    idx = {v: i for i, v in enumerate(names)}
    n = len(names) + 1
    M = [[Fraction(0)]*n for _ in range(n)]
    for m, c in r.n.items():
        c = c*sg
        if len(m) == 0:
            M[n-1][n-1] += c
        elif len(m) == 1:
            i = idx[m[0][0]]
            if m[0][1] == 2:
                M[i][i] += c
            else:
                M[i][n-1] += c/2
                M[n-1][i] += c/2
        else:
            i, j = idx[m[0][0]], idx[m[1][0]]
            M[i][j] += c/2
            M[j][i] += c/2
    # exact elimination
    for k in range(n):
        p = M[k][k]
        if p < 0:
            return None
        if p == 0:
            if any(M[k][j] != 0 for j in range(k, n)):
                return None
            continue
        for i in range(k+1, n):
            f = M[i][k]/p
            if f:
                for j in range(k, n):
                    M[i][j] -= f*M[k][j]
    return sg

def zcmp(op, x):
    return {'<': x < 0, '<=': x <= 0, '==': x == 0}[op]

def solve_linear(p):
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            v = m[0][0]
            if v == PI_NAME or '!' in v:
                continue
            if all(m2 == m or all(x != v for x, _ in m2) for m2 in p):
                rhs = {m2: -c2/c for m2, c2 in p.items() if m2 != m}
                if best is None or len(rhs) < len(best[1]):
                    best = (v, rhs)
    return best

def subst(p, v, rhs):
    out = {}
    pows = {0: poly.const(1)}
    for m, c in p.items():
        e = dict(m).get(v, 0)
        mm = tuple((x, k) for x, k in m if x != v)
        if e not in pows:
            pows[e] = poly.power(rhs, e)
        out = poly.add(out, poly.mul({mm: c}, pows[e]))
    return out

####################################################################################################
# back ends

SOLVER_STATS = dict(z3=0, z3_s=0., cvc5=0, cvc5_s=0.)

def has_int(exprs):
    seen = set()
    todo = list(exprs)
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(e):
            return True
        todo.extend(e.children())
    return False

def make_solver(exprs, ms):
    if has_int(exprs):
        s = z3.Solver()
    else:
        s = z3.SolverFor('QF_NRA')
    s.set('timeout', int(ms))
    for e in exprs:
        s.add(e)
    return s

_CONSTS = {}

def consts_of(e):
    i = e.get_id()
    r = _CONSTS.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    _CONSTS[i] = (e, out)
    return out

def related(hyps, goals):
    '''hypotheses that only talk about constants of the goals (and of the definitions of their atoms)'''
    names = set()
    for g in goals:
        names |= consts_of(g)
    return [h for h in hyps if consts_of(h) <= names]

_LIN = {}

def linearised(e):
    """e with its non linear monomials replaced by fresh constants"""
    i = e.get_id()
    r = _LIN.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    f = z3.simplify(e, som=True, hoist_mul=False, arith_lhs=True, sort_sums=True)
    sub = []
    seen = set()
    todo = [f]
    while todo:
        x = todo.pop()
        j = x.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_app(x):
            k = x.decl().kind()
            args = x.children()
            if k == z3.Z3_OP_POWER or k == z3.Z3_OP_DIV and not z3.is_rational_value(args[1]):
                sub.append((x, z3.Real(f'lin#{x.get_id()}')))
                _KEEP.append(x)
                continue
            if k == z3.Z3_OP_MUL:
                nn = [a for a in args if not z3.is_rational_value(a)]
                if len(nn) > 1:
                    core = nn[0]
                    for a in nn[1:]:
                        core = core*a
                    cs = [a for a in args if z3.is_rational_value(a)]
                    v = z3.Real(f'lin#{core.sexpr()}')
                    for c in cs:
                        v = c*v
                    sub.append((x, v))
                    continue
            todo.extend(args)
    g = z3.substitute(f, *sub) if sub else f
    _LIN[i] = (e, g)
    return g

_KEEP = []

def staged_unsat(hyps, goals, ms):
    """cheap attempts to show hyps and goals inconsistent"""
    if len(hyps) > 2:
        try:
            if quick_check([linearised(h) for h in hyps] + [linearised(g) for g in goals], 200) == 'unsat':
                return 'unsat'
        except z3.Z3Exception:
            pass
    if len(hyps) > 6 and goals:
        rel = related(hyps, goals)
        if len(rel) < len(hyps) and quick_check(rel + goals, ms) == 'unsat':
            return 'unsat'
        names = set()
        for g in goals:
            names |= consts_of(g)
        inp = [h for h in hyps if all('!' not in n or n in names for n in consts_of(h))]
        if len(rel) < len(inp) < len(hyps) and quick_check(inp + goals, 2*ms) == 'unsat':
            return 'unsat'
    return 'unknown'

def quick_check(exprs, ms):
    t0 = time.time()
    try:
        s = make_solver(exprs, ms)
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    SOLVER_STATS['z3'] += 1
    SOLVER_STATS['z3_s'] += time.time() - t0
    return r

def solve_goal(hyps, goal, ms):
    """hyps |- goal"""
    exprs = list(hyps) + [z3.Not(goal)]
    budgets = [min(ms, 2000), ms]
    if staged_unsat(list(hyps), [z3.Not(goal)], 400) == 'unsat':
        return 'proved', 'z3', None
    for k, b in enumerate(budgets):
        t0 = time.time()
        try:
            s = make_solver(exprs, b)
            if k == 1:
                s.set('random_seed', 7)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        SOLVER_STATS['z3'] += 1
        SOLVER_STATS['z3_s'] += time.time() - t0
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', model_dict(s.model())
        if k == 0:
            r = cvc5_check(exprs, ms)
            if r == 'unsat':
                return 'proved', 'cvc5', None
            # default smt core as a third opinion
            t0 = time.time()
            try:
                s2 = z3.Solver()
                s2.set('timeout', int(b))
                for e in exprs:
                    s2.add(e)
                r2 = s2.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            SOLVER_STATS['z3'] += 1
            SOLVER_STATS['z3_s'] += time.time() - t0
            if r2 == z3.unsat:
                return 'proved', 'z3', None
            if r2 == z3.sat:
                return 'refuted', 'z3', model_dict(s2.model())
    return 'unknown', 'z3+cvc5', None

def cvc5_check(exprs, ms):
    import subprocess, os
    t0 = time.time()
    s = z3.Solver()
    for e in exprs:
        s.add(e)
    text = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(ms)}', '--nl-cov', '-q', '-'], input=text,
                           capture_output=True, text=True, timeout=ms/1000 + 5)
        out = p.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    SOLVER_STATS['cvc5'] += 1
    SOLVER_STATS['cvc5_s'] += time.time() - t0
    return out

def model_dict(m):
    d = {}
    for v in m.decls():
        if v.arity() != 0:
            continue
        val = m[v]
        try:
            if z3.is_int_value(val):
                d[v.name()] = str(val.as_long())
            elif z3.is_rational_value(val):
                d[v.name()] = str(val.as_fraction())
            elif z3.is_algebraic_value(val):
                d[v.name()] = str(val.approx(20).as_fraction())
            elif z3.is_true(val) or z3.is_false(val):
                d[v.name()] = bool(z3.is_true(val))
        except Exception:
            pass
    return d
