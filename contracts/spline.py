"""B-splines (B02)."""

from dv.contract import contract
from contracts.bezier import bernstein, points, changed

G = 'Patro.GeometryEngine.'
S = G + 'Spline:BSpline2D.'
U2 = G + 'Spline:QuadraticUniformSpline2D.'
U3 = G + 'Spline:CubicUniformSpline2D.'

def spline(c, degree, n, knots=None):
    v = c.vecs(*[f'p{i}' for i in range(n)])
    return c.cls(G + 'Spline.BSpline2D')(v, degree, knots=knots), [c.xy(p) for p in v]

def clamped(degree, n):
    """spec: uniform knots, clamped at both ends"""
    return [min(max(i - degree, 0), n - degree) for i in range(n + degree + 1)]

def find_span(K, degree, t):
    """spec: the span of non-null length which contains t; the last one includes its end"""
    spans = [i for i in range(degree, len(K) - degree - 1) if bool(K[i] < K[i + 1])]
    for i in spans[:-1]:
        if t < K[i + 1]:
            return i
    return spans[-1]

def basis(K, span, i, k, t):
    """spec: Cox-de Boor basis function, given the span of t"""
    if k == 0:
        return 1 if i == span else 0
    r = 0
    for a, b, s in ((i, i + k, 1), (i + 1, i + k + 1, -1)):
        if not s*(span - i) >= 0 and not (i <= span <= i + k):
            continue
        d = K[b] - K[a]
        if d != 0:
            w = (t - K[a])/d if s == 1 else (K[b] - t)/d
            f = basis(K, span, a, k - 1, t)
            if not (type(f) is int and f == 0):
                r = r + w*f
    return r

def curve(P, K, degree, t):
    """spec: Cox-de Boor combination of the control points"""
    span = find_span(K, degree, t)
    N = [basis(K, span, i, degree, t) for i in range(len(P))]
    return tuple(sum(N[i]*P[i][k] for i in range(len(P)) if not (type(N[i]) is int and N[i] == 0)) for k in (0, 1))

SIZES = {1: (2, 3, 4), 2: (3, 4, 5, 6, 7), 3: (4, 5, 6, 7, 8, 9)}

def each_size(prop, targets, sizes=SIZES, **kw):
    """one instance per degree and number of points"""
    def deco(fn):
        for degree, ns in sizes.items():
            for n in ns:
                def f(c, degree=degree, n=n):
                    fn(c, degree, n)
                f.__name__ = f'{fn.__name__}_{degree}_{n}'
                f.__doc__ = fn.__doc__
                f.__module__ = __name__
                contract(prop, targets, bounded='degree and number of control points enumerated; control points, knots and parameters symbolic', **kw)(f)
        return fn
    return deco

@each_size('B02', [S + '__init__', S + 'uniform_knots', S + 'span', S + '_deboor', S + 'point_at_t', S + 'start_knot', S + 'end_knot'])
def uniform_evaluation(c, degree, n):
    """A uniform spline is the Cox-de Boor combination of its control points."""
    k, P = spline(c, degree, n)
    K = clamped(degree, n)
    c.ensure_same('knots', list(k.knots), K)
    c.ensure('degree', k.degree == degree and k.order == degree + 1 and k.uniform and not k.is_closed)
    c.ensure('domain', k.start_knot == 0 and k.end_knot == n - degree and k.number_of_spans == n - degree)
    c.ensure_same('inner knots', list(k.knot_iter), list(range(n - degree)))
    t = c.real('t', lo=0, hi=n - degree)
    c.ensure_same('point', c.xy(c.call(k.point_at_t, t)), curve(P, K, degree, t))
    c.ensure_same('start', c.xy(c.call(k.point_at_t, 0)), P[0])
    c.ensure_same('stop', c.xy(c.call(k.point_at_t, n - degree)), P[-1])
    c.ensure_same('points kept', points(c, k), P)

@each_size('B02', [S + 'basis_function', S + '_naive_point_at_t'], sizes={1: (2, 3), 2: (3, 4, 5), 3: (4, 5, 6)})
def basis_functions(c, degree, n):
    """The basis functions are non-negative, sum to one and give the same point as the other algorithm."""
    k, P = spline(c, degree, n)
    K = clamped(degree, n)
    t = c.real('t', lo=0, hi=n - degree)
    span = find_span(K, degree, t)
    N = [c.call(k.basis_function, i, degree, t) for i in range(n)]
    c.ensure('sum', c.eq(sum(N), 1))
    for i in range(n):
        c.ensure('basis', c.eq(N[i], basis(K, span, i, degree, t)))
        c.ensure('non-negative', c.ge(N[i], 0))
    c.ensure_same('point', c.xy(c.call(k.point_at_t, t, naive=True)), curve(P, K, degree, t))
    c.ensure_same('points kept', points(c, k), P)

def knots_kept(c, k, K):
    c.ensure_same('knots kept', list(k.knots), K)

@each_size('B02', [S + 'insert_knot', S + 'span', S + '_deboor', S + '__init__'], sizes={1: (2, 3, 4), 2: (3, 4, 5), 3: (4, 5, 6)})
def knot_insertion(c, degree, n):
    """A knot inserted in the domain gives the same curve; the source is kept."""
    k, P = spline(c, degree, n)
    K = clamped(degree, n)
    t = c.real('t', lo=0, hi=n - degree)
    u = c.real('u', lo=0, hi=n - degree)
    c.assume(c.and_(0 < u, u < n - degree))
    c.robust(*[u - i for i in range(n - degree + 1)], *[u - t], tol=1e-3)
    r = c.call(k.insert_knot, u)
    l = find_span(K, degree, u)
    want = K[:l + 1] + [u] + K[l + 1:]
    c.ensure_same('knots', list(r.knots), want)
    c.ensure('one more point', r.number_of_points == n + 1 and r.degree == degree)
    c.ensure_same('same curve', curve(points(c, r), want, degree, t), curve(P, K, degree, t))
    c.ensure_same('ends', [points(c, r)[0], points(c, r)[-1]], [P[0], P[-1]])
    changed(c, r)
    c.ensure_same('points kept', points(c, k), P)
    knots_kept(c, k, K)

@each_size('B02', [S + 'span', S + '_deboor', S + 'point_at_t', S + 'insert_knot'], sizes={1: (2,), 2: (3, 4), 3: (4, 5)})
def inserted_evaluation(c, degree, n):
    """The spline obtained by inserting a knot evaluates as its own knots and points define, ends included."""
    k, P = spline(c, degree, n)
    u = c.real('u', lo=0, hi=n - degree)
    c.assume(c.and_(0 < u, u < n - degree))
    c.robust(*[u - i for i in range(n - degree + 1)], tol=1e-3)
    r = c.call(k.insert_knot, u)
    t = c.real('t', lo=0, hi=n - degree)
    c.ensure_same('point', c.xy(c.call(r.point_at_t, t)), curve(P, clamped(degree, n), degree, t))
    c.ensure_same('stop', c.xy(c.call(r.point_at_t, n - degree)), P[-1])
    c.ensure_same('start', c.xy(c.call(r.point_at_t, 0)), P[0])
    c.ensure_same('other algorithm', c.xy(c.call(r.point_at_t, t, naive=True)), curve(P, clamped(degree, n), degree, t))

@each_size('B02', [S + 'insert_knot', S + 'knot_multiplicity'], sizes={2: (3, 4), 3: (4, 5)})
def repeated_insertion(c, degree, n):
    """Inserting the same knot again keeps the curve; its multiplicity counts the insertions."""
    k, P = spline(c, degree, n)
    u = c.real('u', lo=0, hi=n - degree)
    c.assume(c.and_(0 < u, u < n - degree))
    c.robust(*[u - i for i in range(n - degree + 1)], tol=1e-3)
    t = c.real('t', lo=0, hi=n - degree)
    c.robust(u - t, tol=1e-3)
    K = clamped(degree, n)
    m = sum(1 for x in K if x == u)
    r = k
    for i in range(degree - m):
        r = c.call(r.insert_knot, u)
    c.ensure('multiplicity', c.call(r.knot_multiplicity, u) == degree)
    c.ensure_same('same curve', c.xy(c.call(r.point_at_t, t)), curve(P, K, degree, t))
    c.ensure_same('ends', [points(c, r)[0], points(c, r)[-1]], [P[0], P[-1]])

@each_size('B02', [S + 'to_bezier', S + 'to_bezier_form', S + 'insert_knot', S + 'knot_multiplicity'], sizes={2: (3, 4, 5, 6), 3: (4, 5, 6, 7)})
def bezier_pieces(c, degree, n):
    """The Bezier pieces trace the curve span by span."""
    k, P = spline(c, degree, n)
    K = clamped(degree, n)
    s = c.real('s', lo=0, hi=1)
    c.assume(s < 1)
    r = c.call(k.to_bezier)
    c.ensure('one piece per span', len(r) == n - degree)
    for i, b in enumerate(r):
        c.ensure('kind', type(b).__name__ == {2: 'QuadraticBezier2D', 3: 'CubicBezier2D'}[degree])
        c.ensure_same('piece', bernstein(points(c, b), s), curve(P, K, degree, i + s))
    for a, b in zip(r, r[1:]):
        c.ensure_same('joined', points(c, a)[-1], points(c, b)[0])
    c.ensure_same('ends', [points(c, r[0])[0], points(c, r[-1])[-1]], [P[0], P[-1]])
    f = c.call(k.to_bezier_form)
    c.ensure('form', f.number_of_points == (n - degree)*(degree + 1) and f.degree == degree)
    for b in r:
        changed(c, b)
    c.ensure_same('points kept', points(c, k), P)
    knots_kept(c, k, K)

@contract('B02', [S + '__init__', S + '_deboor', S + 'basis_function', S + 'span'], bounded='degree 2, 4 control points; knots symbolic')
def free_knots(c):
    """Any clamped knot vector: both algorithms follow the definition."""
    a = c.real('a')
    d1, d2 = c.real('d1', pos=True), c.real('d2', pos=True)
    c.robust(d1, d2, tol=1e-2)
    K = [a, a, a, a + d1, a + d1 + d2, a + d1 + d2, a + d1 + d2]
    k, P = spline(c, 2, 4, K)
    w = c.real('w', lo=0, hi=1)
    t = a + w*(d1 + d2)
    c.robust(w*(d1 + d2) - d1, tol=1e-3)
    c.robust(w, 1 - w, tol=1e-3)
    c.ensure('not uniform', not k.uniform)
    c.ensure_same('domain', (k.start_knot, k.end_knot), (a, a + d1 + d2))
    want = curve(P, K, 2, t)
    c.ensure_same('point', c.xy(c.call(k.point_at_t, t)), want)
    c.ensure_same('other algorithm', c.xy(c.call(k.point_at_t, t, naive=True)), want)
    c.ensure_same('stop', c.xy(c.call(k.point_at_t, k.end_knot)), P[-1])

@contract('B02', [S + '__init__', S + 'span'], bounded='degree 2, 4 control points')
def refusals(c):
    """Decreasing knots, too few points and parameters outside of the domain are refused."""
    p = [c.vec(f'p{i}') for i in range(4)]
    k = c.cls(G + 'Spline.BSpline2D')
    c.ensure_raises('decreasing knots', ValueError, k, p, 2, knots=[0, 0, 0, 2, 1, 3, 3])
    c.ensure_raises('too few points', ValueError, k, p, 4)
    t = c.real('t')
    c.assume(c.or_(t < 0, t > 2))
    c.ensure_raises('outside', ValueError, k(p, 2).point_at_t, t)

def uniform_basis(t):
    """spec: uniform quadratic and cubic blending functions"""
    u = 1 - t
    return {3: (u*u/2, (1 + 2*t - 2*t*t)/2, t*t/2),
            4: (u*u*u/6, (3*t*t*t - 6*t*t + 4)/6, (-3*t*t*t + 3*t*t + 3*t + 1)/6, t*t*t/6)}

@contract('B02', [U2 + 'point_at_t', U2 + 'to_bezier', U2 + 'BASIS', U2 + 'INVERSE_BASIS', U3 + 'point_at_t', U3 + 'to_bezier', U3 + 'BASIS', U3 + 'INVERSE_BASIS'])
def uniform_parts(c):
    """A part of a uniform spline blends its points and converts to the Bezier curve with the same points."""
    n = c.choice('n', 3, 4)
    v = c.vecs(*[f'p{i}' for i in range(n)])
    P = [c.xy(p) for p in v]
    cls = c.cls(G + 'Spline.' + {3: 'QuadraticUniformSpline2D', 4: 'CubicUniformSpline2D'}[n])
    k = cls(*v)
    t = c.real('t', lo=0, hi=1)
    N = uniform_basis(t)[n]
    want = tuple(sum(N[i]*P[i][j] for i in range(n)) for j in (0, 1))
    c.ensure_same('point', c.xy(c.call(k.point_at_t, t)), want)
    B, I = cls.BASIS, cls.INVERSE_BASIS
    for i in range(n):
        c.ensure('blending matrix', c.eq(sum(B[i, j]*t**j for j in range(n)), N[i]))
        for j in range(n):
            c.ensure('inverse', c.eq(sum(B[i, h]*I[h, j] for h in range(n)), 1 if i == j else 0))
    b = c.call(k.to_bezier)
    c.ensure('kind', type(b).__name__ == {3: 'QuadraticBezier2D', 4: 'CubicBezier2D'}[n])
    c.ensure_same('same curve', bernstein(points(c, b), t), want)
    changed(c, b)
    c.ensure_same('points kept', points(c, k), P)

@contract('B02', [S + 'to_bezier', S + 'to_bezier_form', S + 'insert_knot', S + 'knot_multiplicity'], concrete_only=True,
          bounded='runs on the untouched code, up to 24 control points')
def bezier_pieces_many(c):
    """The Bezier pieces of a spline with many control points trace the curve span by span."""
    degree = c.choice('degree', 2, 3)
    n = c.int('n', degree + 1, 24)
    k, P = spline(c, degree, n)
    K = clamped(degree, n)
    s = c.real('s', lo=0, hi=1)
    c.assume(s < 1)
    r = c.call(k.to_bezier)
    c.ensure('one piece per span', len(r) == n - degree)
    for i, b in enumerate(r):
        c.ensure_same('piece', bernstein(points(c, b), s), curve(P, K, degree, i + s))
    f = c.call(k.to_bezier_form)
    c.ensure('form', f.number_of_points == (n - degree)*(degree + 1) and f.degree == degree)
    c.ensure_same('points kept', points(c, k), P)

# ------------------------------------------------------------------ any number of control points

class Knots:
    """spec: the clamped uniform knots near the span m, for any number of spans"""
    def __init__(self, degree, m, spans):
        self.degree, self.m, self.spans = degree, m, spans
    def __getitem__(self, j):
        v = self.m + (j - self.degree)
        return 0 if v < 0 else (self.spans if v > self.spans else v)

def any_number(degree):
    def check(c):
        if not c.symbolic:
            n = c.int('n', degree + 1, 60)
            k, P = spline(c, degree, n)
            t = c.real('t', lo=0, hi=n - degree)
            c.ensure_same('point', c.xy(c.call(k.point_at_t, t)), curve(P, clamped(degree, n), degree, t))
            return
        from dv import loops, sym
        n = c.int('n', lo=degree + 1)
        pts = loops.Seq(n, lambda k: c.vec(f'p{len(pts.known)}'), 'control points')
        t = c.real('t', lo=0)
        spans = n - degree
        c.assume(t <= spans)
        with loops.unbounded(c, None, **loops.by_contract(c)):
            k = c.call(c.cls(G + 'Spline.BSpline2D'), pts, degree)
            c.ensure('domain', c.and_(c.eq(k.start_knot, 0), c.eq(k.end_knot, spans), c.eq(k.number_of_spans, spans)))
            p = c.xy(c.call(k.point_at_t, t))
            if t == 0:
                c.ensure_same('start', p, c.xy(pts.at(0)))
            elif t == spans:
                c.ensure_same('end', p, c.xy(pts.at(n - 1)))
            else:
                m = sym.floor_sym(t)
                K = Knots(degree, m, spans)
                N = [basis(K, degree, j, degree, t) for j in range(degree + 1)]
                P = [c.xy(pts.at(m + j)) for j in range(degree + 1)]
                c.ensure_same('point', p, tuple(sum(w*q[h] for w, q in zip(N, P)) for h in (0, 1)))
    check.__name__ = f'evaluation_any_number_{degree}'
    check.__module__ = __name__
    check.__doc__ = f'A uniform spline of degree {degree} with any number of control points: the Cox-de Boor combination of the points of the span.'
    return contract('B02', [S + '__init__', S + 'uniform_knots', S + 'span', S + '_deboor', S + 'point_at_t', S + 'start_knot', S + 'end_knot',
                            S + 'number_of_spans'])(check)

for _degree in (1, 2, 3):
    any_number(_degree)

def inserted_any_number(degree):
    def check(c):
        if not c.symbolic:
            n = c.int('n', degree + 1, 40)
            k, P = spline(c, degree, n)
            spans = n - degree
            u = c.real('u', lo=0, hi=spans)
            t = c.real('t', lo=0, hi=spans)
            c.assume(c.and_(0 < u, u < spans, t < spans))
            K = clamped(degree, n)
            c.robust(*[u - i for i in range(spans + 1)], u - t, tol=1e-3)
            r = c.call(k.insert_knot, u)
            l = find_span(K, degree, u)
            want = K[:l + 1] + [u] + K[l + 1:]
            c.ensure_same('knots', list(r.knots), want)
            c.ensure_same('same curve', curve(points(c, r), want, degree, t), curve(P, K, degree, t))
            c.ensure_same('points kept', points(c, k), P)
            return
        from dv import loops, sym
        n = c.int('n', lo=degree + 1)
        pts = loops.Seq(n, lambda k: c.vec(f'p{len(pts.known)}'), 'control points')
        spans = n - degree
        u = c.real('u')
        c.assume(0 < u, u < spans)
        m = sym.floor_sym(u)
        l = m + degree
        K = lambda i: Knots(degree, 0, spans)[i]
        def item(k):
            """Boehm: the new control points"""
            if k <= l - degree:
                return pts.at(k)
            if k > l:
                return pts.at(k - 1)
            w = (u - K(k))/(K(k + degree) - K(k))
            a, b = c.xy(pts.at(k - 1)), c.xy(pts.at(k))
            return c.V(*[a[h]*(1 - w) + b[h]*w for h in (0, 1)])
        def same(got, want):
            c.ensure_same('control point', c.xy(got), c.xy(want))
        with loops.unbounded(c, lambda loop, state: loops.Built(c, item, same), **loops.by_contract(c)):
            k = c.call(c.cls(G + 'Spline.BSpline2D'), pts, degree)
            r = c.call(k.insert_knot, u)
            c.ensure('one more point', c.and_(c.eq(r.number_of_points, n + 1), r.degree == degree))
            if not isinstance(r._points, loops.Seq) or not isinstance(r.knots, loops.Seq):
                c.not_applicable('points held otherwise')
            c.ensure('one more knot', c.eq(r.knots.n, n + degree + 2))
            new = lambda i: K(i) if i <= l else (u if i == l + 1 else K(i - 1))
            i = c.int('index', lo=0)
            if c.choice('part', 'knots', 'points') == 'knots':
                c.assume(i < r.knots.n)
                c.ensure('knot', c.eq(r.knots[i], new(i)))
            else:
                c.assume(i < n + 1)
                c.ensure_same('point', c.xy(r._points.at(i)), c.xy(item(i)))
    check.__name__ = f'insertion_any_number_{degree}'
    check.__module__ = __name__
    check.__doc__ = f'A knot inserted in a uniform spline of degree {degree} with any number of control points: the knots and points of the formula of Boehm (see insertion_lemma).'
    return contract('B02', [S + '__init__', S + 'uniform_knots', S + 'span', S + 'insert_knot'])(check)

for _degree in (1, 2, 3):
    inserted_any_number(_degree)

def insertion_lemma(degree):
    def check(c):
        """knots and points are counted from the span of the new knot: knot j is the number j clamped to the domain [-a, e],
        the span of t is d, far ends and far spans are as near ones (nothing of theirs is in sight)"""
        far = 2*degree
        a, e = c.choice('a', *range(far + 1)), c.choice('e', *range(1, far + 2))
        d = c.choice('d', *range(-degree - 1, degree + 2))
        if not -a <= d < e:
            return
        u, v = c.real('u', lo=0, hi=1), c.real('v', lo=0, hi=1)
        c.assume(u < 1, v < 1)
        if a == 0:
            c.assume(u > 0)
        c.robust(u, v, 1 - u, 1 - v, u - v, tol=1e-3)
        t = d + v
        K = lambda i: max(-a, min(e, i))          # index 0: the knot that starts the span of u
        new = lambda i: K(i) if i <= 0 else (u if i == 1 else K(i - 1))
        P = {i: c.xy(c.vec(f'p{i + far}')) for i in range(d - 2*degree - 1, d + degree + 2)}
        def point(i):                             # the point i weighs from the knot i, as in the code with its knot indices
            if i <= -degree:
                return P[i]
            if i > 0:
                return P[i - 1]
            w = (u - K(i))/(K(i + degree) - K(i))
            return tuple(P[i - 1][h]*(1 - w) + P[i][h]*w for h in (0, 1))
        def combination(knots, pts):
            N = [basis(knots, degree, j, degree, t) for j in range(degree + 1)]
            return tuple(sum(w*q[h] for w, q in zip(N, pts)) for h in (0, 1))
        old = combination([K(d - degree + j) for j in range(2*degree + 2)], [P[d - degree + j] for j in range(degree + 1)])
        first = d - degree if t < u else d - degree + 1
        c.ensure_same('same curve', combination([new(first + j) for j in range(2*degree + 2)], [point(first + j) for j in range(degree + 1)]), old)
    check.__name__ = f'insertion_lemma_{degree}'
    check.__module__ = __name__
    check.__doc__ = f'Lemma, degree {degree}: the formula of Boehm keeps the curve on every span.'
    return contract('B02', [S + 'insert_knot'])(check)

for _degree in (1, 2, 3):
    insertion_lemma(_degree)
