"""Bezier curves (B01)."""

from dv.contract import contract
from contracts.vector import dot, cross, nonnull
from contracts.linear import sub

G = 'Patro.GeometryEngine.'
M = G + 'Bezier:BezierMixin2D.'
QD = G + 'Bezier:QuadraticBezier2D.'
CD = G + 'Bezier:CubicBezier2D.'
BINOM = {2: (1, 2, 1), 3: (1, 3, 3, 1), 1: (1, 1)}

def bernstein(P, t):
    """spec: Bernstein combination of control points (tuples)"""
    n = len(P) - 1
    u = 1 - t
    return tuple(sum((BINOM[n][i]*t**i*u**(n - i)*P[i][k] for i in range(1, n + 1)), u**n*P[0][k]) for k in (0, 1))

def dbernstein(P, t):
    """spec: derivative of the curve"""
    n = len(P) - 1
    d = [tuple(n*(b - a) for a, b in zip(P[i], P[i + 1])) for i in range(n)]
    return bernstein(d, t)

def points(c, k):
    return [c.xy(p) for p in k.points]

def cubic(c, name='b'):
    v = c.vecs(*[f'{name}{i}' for i in range(4)])
    return c.cls(G + 'Bezier.CubicBezier2D')(*v), [c.xy(p) for p in v]

def quadratic(c, name='b'):
    v = c.vecs(*[f'{name}{i}' for i in range(3)])
    return c.cls(G + 'Bezier.QuadraticBezier2D')(*v), [c.xy(p) for p in v]

def changed(c, k):
    """change every control point of a curve in place"""
    for p in k.points:
        p.x = p.x + 1
        p.y = p.y - 2

def evaluation(c, make):
    k, P = make(c)
    t = c.real('t', lo=0, hi=1)
    p = c.call(k.point_at_t, t)
    c.ensure_same('Bernstein combination', c.xy(p), bernstein(P, t))
    c.ensure_same('start', c.xy(c.call(k.point_at_t, 0)), P[0])
    c.ensure_same('stop', c.xy(c.call(k.point_at_t, 1)), P[-1])
    c.ensure_same('start point', c.xy(k.start_point), P[0])
    c.ensure_same('end point', c.xy(k.end_point), P[-1])
    p.x = p.x + 1
    c.ensure_same('curve kept', points(c, k), P)
    c.ensure('number of points', k.number_of_points == len(P) == len(k))
    # outside of [0, 1] the polynomial goes on
    s = c.real('s')
    c.ensure_same('polynomial', c.xy(c.call(k.point_at_t, s)), bernstein(P, s))
    for end in (0, 1):
        q = c.call(k.point_at_t, end)
        q.x = q.x + 1
        c.ensure_same('curve kept', points(c, k), P)

def tangents(c, make):
    k, P = make(c)
    n = len(P) - 1
    t = c.real('t', lo=0, hi=1)
    v = c.call(k.tangent_at, t)
    c.ensure_same('derivative up to the degree', (n*v.x, n*v.y), dbernstein(P, t))
    a, b = sub(P[1], P[0]), sub(P[n], P[n - 1])
    c.assume(nonnull(c, a), nonnull(c, b))
    c.robust(c.sqrt(dot(a, a)), c.sqrt(dot(b, b)), tol=1e-3)
    v1 = c.call(lambda: k.tangent1)
    m = c.sqrt(dot(b, b))
    c.vec_is('tangent at the end', v1, b[0]/m, b[1]/m)
    if hasattr(type(k), 'tangent0'):
        v0 = c.call(lambda: k.tangent0)
        m = c.sqrt(dot(a, a))
        c.vec_is('tangent at the start', v0, a[0]/m, a[1]/m)
    if n == 2:
        n0, n1 = c.call(lambda: k.normal0), c.call(lambda: k.normal1)
        c.vec_is('normal at the start', n0, -v0.y, v0.x)
        c.vec_is('normal at the end', n1, -v1.y, v1.x)
    c.ensure_same('curve kept', points(c, k), P)

def split(c, make):
    k, P = make(c)
    t = c.real('t', lo=0, hi=1)
    s = c.real('s', lo=0, hi=1)
    c.assume(c.and_(0 < t, t < 1))
    r = c.call(k.split_at_t, t)
    c.ensure('two curves', isinstance(r, tuple) and len(r) == 2)
    left, right = r
    c.ensure('kind', type(left) is type(k) and type(right) is type(k))
    c.ensure_same('left part', bernstein(points(c, left), s), bernstein(P, t*s))
    c.ensure_same('right part', bernstein(points(c, right), s), bernstein(P, t + s*(1 - t)))
    c.ensure_same('common point', c.xy(left.end_point), c.xy(right.start_point))
    L, R = points(c, left), points(c, right)
    changed(c, left)
    c.ensure_same('curve kept', points(c, k), P)
    c.ensure_same('right kept', points(c, right), R)
    changed(c, right)
    c.ensure_same('curve kept', points(c, k), P)
    changed(c, right)
    c.ensure_same('left kept', points(c, left), [(x + 1, y - 2) for x, y in L])

def split_ends(c, make):
    """Splitting at an end parameter gives the whole curve on the other side."""
    k, P = make(c)
    left, right = c.call(k.split_at_t, 0)
    c.ensure_same('whole curve right', points(c, right), P)
    if left is not None:
        c.ensure_same('null part', points(c, left), [P[0]]*len(P))
    left, right = c.call(k.split_at_t, 1)
    c.ensure_same('whole curve left', points(c, left), P)
    if right is not None:
        c.ensure_same('null part', points(c, right), [P[-1]]*len(P))
    c.ensure_same('curve kept', points(c, k), P)

def split_two(c, make):
    k, P = make(c)
    t1, t2, s = [c.real(n, lo=0, hi=1) for n in ('t1', 't2', 's')]
    c.robust(1 - t1, 1 - t2, tol=1e-3)
    r = c.call(k.split_at_two_t, t1, t2)
    if t1 == t2:
        c.ensure_same('point', c.xy(r), bernstein(P, t1))
    else:
        if t2 < t1:
            t1, t2 = t2, t1
        c.ensure('kind', type(r) is type(k))
        c.ensure_same('part', bernstein(points(c, r), s), bernstein(P, t1 + s*(t2 - t1)))
    c.ensure_same('curve kept', points(c, k), P)

def basis(c, make):
    """The matrices convert between control points and polynomial coefficients."""
    k, P = make(c)
    n = len(P)
    t = c.real('t')
    B, I = type(k).BASIS, type(k).INVERSE_BASIS
    c.ensure('shape', B.shape == (n, n) == I.shape)
    for i in range(n):
        for j in range(n):
            c.ensure('inverse', c.eq(sum(B[i, h]*I[h, j] for h in range(n)), 1 if i == j else 0))
    A = c.call(lambda: k.point_array)
    c.ensure('array shape', A.shape == (2, n))
    coef = [[sum(A[r, i]*B[i, j] for i in range(n)) for j in range(n)] for r in (0, 1)]
    c.ensure_same('polynomial form', tuple(sum(coef[r][j]*t**j for j in range(n)) for r in (0, 1)), bernstein(P, t))
    A[0, 0] = A[0, 0] + 1
    c.ensure_same('curve kept', points(c, k), P)

def register(name, fn, targets, **kw):
    for make, D in ((quadratic, QD), (cubic, CD)):
        def f(c, fn=fn, make=make):
            fn(c, make)
        f.__doc__ = fn.__doc__
        f.__name__ = f'{make.__name__}_{name}'
        f.__module__ = __name__
        contract('B01', [t if ':' in t else D + t for t in targets], **kw)(f)

register('evaluation', evaluation, ['__init__', 'point_at_t', G + 'Primitive:Primitive3P.points', G + 'Primitive:Primitive2P.start_point'])
register('tangents', tangents, ['tangent_at', 'tangent1'])
register('split', split, ['split_at_t', G + 'Interpolation:interpolate_two_points'])
register('split_ends', split_ends, ['split_at_t'])
register('split_two', split_two, [M + 'split_at_two_t', 'split_at_t'], deadline=200)
register('basis', basis, ['BASIS', 'INVERSE_BASIS', G + 'Primitive:PointPrimitive.point_array'])

@contract('B01', [QD + 'to_cubic'])
def degree_elevation(c):
    k, P = quadratic(c)
    t = c.real('t')
    r = c.call(k.to_cubic)
    c.ensure('kind', type(r).__name__ == 'CubicBezier2D')
    c.ensure_same('same curve', bernstein(points(c, r), t), bernstein(P, t))
    changed(c, r)
    c.ensure_same('curve kept', points(c, k), P)

@contract('B01', [CD + 'mid_point_quadratic_approximation', CD + '_q_point', CD + '_d01'])
def quadratic_approximation(c):
    """The mid-point approximation shares end and middle points and is exact for an elevated quadratic."""
    k, P = cubic(c)
    r = c.call(k.mid_point_quadratic_approximation)
    R = points(c, r)
    c.ensure_same('ends', (R[0], R[2]), (P[0], P[3]))
    h = c.q(1, 2)
    c.ensure_same('middle', bernstein(R, h), bernstein(P, h))
    q, Q = quadratic(c, 'q')
    c.ensure_same('inverse of the elevation', points(c, q.to_cubic().mid_point_quadratic_approximation()), Q)
    d = c.call(q.to_cubic()._d01)
    c.ensure('distance of an elevated curve', c.eq(d, 0))
    changed(c, r)
    c.ensure_same('curve kept', points(c, k), P)

@contract('B01', [CD + 'to_spline', G + 'Spline:CubicUniformSpline2D.to_bezier', G + 'Spline:CubicUniformSpline2D.point_at_t',
                  G + 'Spline:CubicUniformSpline2D.BASIS', G + 'Spline:CubicUniformSpline2D.INVERSE_BASIS'])
def cubic_spline_form(c):
    """The uniform spline form traces the same curve, and converts back."""
    k, P = cubic(c)
    t = c.real('t', lo=0, hi=1)
    s = c.call(k.to_spline)
    c.ensure('kind', type(s).__name__ == 'CubicUniformSpline2D')
    c.ensure_same('same curve', c.xy(c.call(s.point_at_t, t)), bernstein(P, t))
    r = c.call(s.to_bezier)
    c.ensure('kind', type(r) is type(k))
    c.ensure_same('back', points(c, r), P)
    changed(c, s)
    changed(c, r)
    c.ensure_same('curve kept', points(c, k), P)

@contract('B01', [CD + 'area'])
def cubic_area(c):
    """Area between the curve and its chord: the integral of half the cross product of position and derivative."""
    k, P = cubic(c)
    a = c.call(lambda: k.area)
    # integral over [0, 1] of (x y' - y x')/2 of the closed contour curve + chord, exact by Bernstein products
    n = 3
    w = 0
    for i in range(4):
        for j in range(3):
            d = (P[j + 1][0] - P[j][0], P[j + 1][1] - P[j][1])
            # int B_i^3 B_j^2 = C(3,i) C(2,j) / (C(5,i+j) * 6)
            f = c.q(BINOM[3][i]*BINOM[2][j], (1, 5, 10, 10, 5, 1)[i + j]*6)
            w = w + f*3*cross(P[i], d)
    chord = cross(P[3], P[0])
    c.ensure('area', c.eq(2*a, w + chord, order=2))
    c.ensure_same('curve kept', points(c, k), P)

@contract('B01', [QD + 'fat_line', CD + 'fat_line'])
def fat_lines(c):
    """The band of the fat line contains the curve."""
    k, P = quadratic(c) if c.bool('quadratic') else cubic(c)
    d = sub(P[-1], P[0])
    c.assume(nonnull(c, d))
    m = c.sqrt(dot(d, d))
    c.robust(m, tol=1e-2)
    l, lo, hi = c.call(k.fat_line)
    c.ensure_same('base line', c.xy(l.p) + c.xy(l.v), P[0] + d)
    if len(P) == 3:
        # the distance of the point at t is 2 t (1 - t) times the one of the control point
        q = cross(d, sub(P[1], P[0]))/m
        c.ensure('band', c.and_(c.le(lo, 0), c.ge(hi, 0), c.or_(c.eq(2*lo, q), c.eq(2*hi, q)), c.or_(c.eq(lo, 0), c.eq(hi, 0))))
    else:
        d1, d2 = [cross(d, sub(P[i], P[0]))/m for i in (1, 2)]
        c.robust(d1, d2, tol=1e-4)
        f = c.q(3, 4) if d1*d2 > 0 else c.q(4, 9)
        c.ensure('below', c.and_(c.le(lo, 0), c.le(lo, f*d1), c.le(lo, f*d2)))
        c.ensure('above', c.and_(c.ge(hi, 0), c.ge(hi, f*d1), c.ge(hi, f*d2)))
