"""Numeric helpers and root finders (M01)."""

from dv.contract import contract

R = 'Patro.Common.Math.Root'
F = 'Patro.Common.Math.Functions'

def roots_of(r):
    return () if r is None else (tuple(r) if isinstance(r, (tuple, list)) else (r,))

@contract('M01', [R + ':quadratic_root'])
def quadratic(c):
    """Every real root of a second degree equation and no other value."""
    a, b, k = c.reals('a', 'b', 'c')
    D = b*b - 4*a*k
    c.robust(a, b, tol=1e-3)
    c.robust(D, tol=1e-3)
    r = c.call(c.mod(R).quadratic_root, a, b, k)
    x = c.real('x')
    z = roots_of(r)
    if a == 0:
        if b == 0:
            c.ensure('no equation', r is None)
        else:
            c.ensure('linear', len(z) == 1)
            c.ensure('root', c.eq(b*z[0] + k, 0))
        return
    if D < 0:
        c.ensure('not real', len(z) == 0)
    elif D == 0:
        c.ensure('one root', len(z) == 1)
        c.ensure('factor', c.eq(a*(x - z[0])*(x - z[0]), a*x*x + b*x + k, order=3))
    else:
        c.ensure('two roots', len(z) == 2)
        c.ensure('factors', c.eq(a*(x - z[0])*(x - z[1]), a*x*x + b*x + k, order=3))
        c.ensure('distinct', c.not_(z[0] == z[1]))

def polynomial(coefs, x):
    r = 0
    for k in coefs:
        r = r*x + k
    return r

class SympyContract:
    """contract of sympy: real_roots(E, x) gives every real root of the polynomial E of the symbol x, .n() its value"""
    def __init__(self, c):
        self.c, self.calls, self.n_roots = c, [], 3
    def Symbol(self, name, real=None):
        self.x = self.c.real('sympy.x')
        self.real = real
        return self.x
    def real_roots(self, E, x):
        self.calls.append((E, x))
        c = self.c
        class Root:
            def __init__(self, i): self.v = c.real(f'root{i}')
            def n(self): return self.v
        self.roots = [Root(i) for i in range(self.n_roots)]
        return self.roots

def solver(name, degree, leading):
    def harness(c):
        """The solver hands the polynomial of its coefficients to the root finder and returns each root."""
        m = c.mod(R)
        n = degree + (1 if leading else 0)
        coefs = [c.real(f'a{i}') for i in range(n)]
        if leading:
            c.assume(coefs[0] != 0)
            c.robust(coefs[0], tol=1e-1)
        f = getattr(m, name)
        if c.symbolic:
            real, s = m.sympy, SympyContract(c)
            m.sympy = s
            try:
                r = c.call(f, *coefs)
            finally:
                m.sympy = real
            c.ensure('one search', len(s.calls) == 1)
            E, x = s.calls[0]
            c.ensure('real symbol', s.real is True)
            c.ensure('variable', c.eq(x, s.x))
            want = polynomial(coefs if leading else [1] + coefs, x)
            lead = coefs[0] if leading else 1
            # same roots: equal up to a non-null constant factor, given by the leading coefficient
            c.ensure('polynomial', c.or_(c.eq(E, want), c.eq(E*lead, want)))
            c.ensure_same('every root', tuple(r), tuple(z.v for z in s.roots))
        else:
            r = [float(z) for z in c.call(f, *coefs)]
            full = coefs if leading else [1.] + coefs
            import numpy
            for z in r:
                d = abs(polynomial([abs(k) for k in full], abs(z))) + 1
                c.ensure('is a root', abs(polynomial(full, z)) <= 1e-6*d)
            near = [w.real for w in numpy.roots(full) if abs(w.imag) < 1e-12]
            simple = [w for w in near if sum(abs(w - v) < 1e-3*(1 + abs(w)) for v in numpy.roots(full)) == 1]
            for w in simple:
                c.ensure('every root', any(abs(w - z) <= 1e-5*(1 + abs(w)) for z in r))
    harness.__name__ = name
    contract('M01', [f'{R}:{name}', R + ':real_roots', R + ':x_symbol'], cases=25)(harness)

solver('cubic_root', 3, True)
solver('cubic_root_sympy', 3, True)
solver('cubic_root_normalised', 3, False)
solver('fourth_root_normalised', 4, False)
solver('fifth_root_sympy', 5, True)
solver('fifth_root_normalised', 5, False)
solver('fifth_root', 5, True)

@contract('M01', [R + ':cubic_root'])
def cubic_falls_back(c):
    """Without third degree term, the second degree solver answers."""
    a, b, k = c.reals('a', 'b', 'c')
    m = c.mod(R)
    got = roots_of(c.call(m.cubic_root, 0, a, b, k))
    want = roots_of(m.quadratic_root(a, b, k))
    c.ensure_same('same roots', got, want)

@contract('M01', [R + ':fifth_root', R + ':fifth_root_sympy'], cases=25)
def fifth_falls_back(c):
    """Without fifth degree term, the polynomial of lower degree is solved."""
    m = c.mod(R)
    coefs = c.reals('b', 'c', 'd', 'e', 'f')
    c.assume(coefs[0] != 0)
    c.robust(coefs[0], tol=1e-1)
    if c.symbolic:
        real, s = m.sympy, SympyContract(c)
        m.sympy = s
        try:
            r = c.call(m.fifth_root, 0, *coefs)
        finally:
            m.sympy = real
        c.ensure('polynomial', c.eq(s.calls[0][0], polynomial(coefs, s.x)))
        c.ensure_same('every root', tuple(r), tuple(z.v for z in s.roots))
    else:
        for z in c.call(m.fifth_root, 0, *coefs):
            z = float(z)
            d = abs(polynomial([abs(k) for k in coefs], abs(z))) + 1
            c.ensure('is a root', abs(polynomial(coefs, z)) <= 1e-6*d)

# ------------------------------------------------------------------ helpers

@contract('M01', [F + ':sign', F + ':cmp'])
def sign_and_cmp(c):
    """sign and comparison, negative and zero included."""
    m = c.mod(F)
    a, b = c.reals('a', 'b')
    s = c.call(m.sign, a)
    c.ensure('unit', c.or_(c.eq(s, 1), c.eq(s, -1)))
    c.ensure('sign', c.eq(s*abs(a), a))
    c.ensure('zero counts as positive', c.eq(m.sign(0), 1))
    k = c.call(m.cmp, a, b)
    c.ensure('cmp', c.eq(k, 1 if a > b else (-1 if a < b else 0)))
    c.ensure('cmp equal', c.eq(m.cmp(a, a), 0))
    c.ensure('antisymmetric', c.eq(m.cmp(b, a), -k))

@contract('M01', [F + ':trignometric_clamp', F + ':is_in_trignometric_range'])
def clamp(c):
    m = c.mod(F)
    x = c.real('x')
    y = c.call(m.trignometric_clamp, x)
    c.ensure('clamped', c.eq(y, 1 if x > 1 else (-1 if x < -1 else x)))
    c.ensure('range', c.iff(m.is_in_trignometric_range(x), c.and_(-1 <= x, x <= 1)))
    for v in (-1, 0, 1):
        c.ensure('limit', c.eq(m.trignometric_clamp(v), v) and m.is_in_trignometric_range(v))

@contract('M01', [F + ':rint', F + ':ceil_int'])
def rounding(c):
    """Rounding to the nearest integer and to the next one, for negative numbers too."""
    m = c.mod(F)
    x = c.real('x', sample=(-20, 20))
    n = c.int('n')
    r = c.call(m.rint, x)
    if not c.symbolic:
        c.ensure('integers', type(r) is int and type(m.ceil_int(x)) is int)
    c.ensure('integer', c.eq(r, round(r)))
    c.ensure('nearest', c.and_(r - x <= c.q(1, 2), x - r <= c.q(1, 2)))
    k = c.call(m.ceil_int, x)
    c.ensure('integer', c.eq(k, round(k)))
    c.ensure('next', c.and_(x <= k, k < x + 1))
    c.ensure('integers are kept', c.and_(c.eq(m.rint(n), n), c.eq(m.ceil_int(n), n)))

@contract('M01', [F + ':middle', F + ':epsilon_float'])
def averages(c):
    m = c.mod(F)
    a, b = c.reals('a', 'b')
    e = c.real('e', nonneg=True)
    k = c.call(m.middle, a, b)
    c.ensure('middle', c.eq(2*k, a + b))
    c.ensure('between', c.or_(c.and_(c.le(a, k), c.le(k, b)), c.and_(c.le(b, k), c.le(k, a))))
    d = abs(a - b)
    c.robust(d - e, zero=True)
    c.ensure('close', c.iff(c.call(m.epsilon_float, a, b, e), d <= e))
    c.robust(d - 1e-3 if not c.symbolic else d, zero=True)
    c.ensure('default tolerance', c.iff(c.call(m.epsilon_float, a, b), d <= c.q(1, 1000)))
    c.ensure('equal', m.epsilon_float(a, a))
