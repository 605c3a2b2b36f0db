"""Lines (G01), segments (G02), triangles and rectangles (G03)."""

from dv.contract import contract, functional, REAL, VEC, SEGMENT
from contracts.vector import dot, cross, nonnull

G = 'Patro.GeometryEngine.'
L = G + 'Line:Line2D.'
S = G + 'Segment:Segment2D.'
T = G + 'Triangle:'
R = G + 'Rectangle:Rectangle2D.'

def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])

def distinct(c, a, b):
    return c.or_(c.not_(a[0] == b[0]), c.not_(a[1] == b[1]))

def line(c, name, unit=False):
    p, v = c.vec(name + '.p'), c.vec(name + '.v')
    c.assume(nonnull(c, c.xy(v)))
    c.robust(v.x, v.y)
    return c.cls(G + 'Line.Line2D')(p, v), c.xy(p), c.xy(v)

def segment(c, name):
    a, b = c.vec(name + '.0'), c.vec(name + '.1')
    c.assume(distinct(c, c.xy(a), c.xy(b)))
    c.robust(a.x - b.x, a.y - b.y)
    return c.cls(G + 'Segment.Segment2D')(a, b), c.xy(a), c.xy(b)

def view_line(c, l):
    return (c.view(l.p), c.view(l.v))

# ------------------------------------------------------------------ G01

@contract('G01', [L + '__init__', L + 'from_two_points', L + 'clone', L + 'interpolate', L + 'is_infinite', L + 'vn'])
def line_points(c):
    """A line runs through its point(s) along its vector."""
    a, b = c.vecs('a', 'b')
    A, B = c.xy(a), c.xy(b)
    s = c.real('s')
    Line = c.cls(G + 'Line.Line2D')
    l = c.call(Line.from_two_points, a, b)
    c.ensure('class', type(l) is Line)
    c.vec_is('first point', l.interpolate(0), *A)
    c.vec_is('second point', l.interpolate(1), *B)
    P = c.call(l.interpolate, s)
    c.vec_is('interpolation', P, A[0] + s*(B[0] - A[0]), A[1] + s*(B[1] - A[1]))
    c.ensure_same('aliases', c.view(l.point_at_s(s)), c.view(l.point_at_t(s)))
    c.ensure_same('alias', c.view(l.point_at_s(s)), c.view(P))
    c.ensure('infinite', l.is_infinite is True)
    c.ensure('no bounding box', l.bounding_box is None)
    k = c.call(l.clone)
    c.ensure('clone class', type(k) is Line)
    c.ensure_same('clone', view_line(c, k), view_line(c, l))
    old = view_line(c, l)
    k.p.x = k.p.x + 1
    k.v.y = k.v.y + 1
    k.p += a
    c.ensure_same('clone independent', view_line(c, l), old)
    c.vec_is('operands', a, *A)
    c.vec_is('operand', b, *B)

@contract('G01', [L + 'projected_abscissa', L + 'projected_point'])
def line_projection(c):
    """The projection lies on the line at the projected abscissa and the rest is orthogonal."""
    l, p, v = line(c, 'l')
    q = c.vec('q')
    Q = c.xy(q)
    s = c.call(l.projected_abscissa, q)
    m = c.call(l.projected_point, q)
    c.ensure_same('on the line', c.view(m), (p[0] + s*v[0], p[1] + s*v[1]))
    c.ensure('orthogonal', c.eq(dot(sub(Q, c.xy(m)), v), 0, order=2))
    c.ensure('incidence', c.eq(cross(sub(c.xy(m), p), v), 0, order=2))
    c.ensure_same('line kept', view_line(c, l), (p, v))
    c.vec_is('point kept', q, *Q)

@contract('G01', [L + 'distance_to_line', L + 'distance_and_abscissa_to_line'])
def line_distance(c):
    """The signed distance is the distance to the projection, positive on the left."""
    l, p, v = line(c, 'l')
    q = c.vec('q')
    Q = c.xy(q)
    d = c.call(l.distance_to_line, q)
    m = c.sqrt(dot(v, v))
    c.ensure('signed distance', c.eq(d*m, cross(v, sub(Q, p)), order=2))
    k = dot(sub(Q, p), v)/dot(v, v)
    r = sub(Q, (p[0] + k*v[0], p[1] + k*v[1]))
    c.ensure('distance to projection', c.eq(d*d, dot(r, r), order=2))
    e, s = c.call(l.distance_and_abscissa_to_line, q)
    c.ensure('same distance', c.eq(e, d))
    c.ensure('arc length', c.eq(s*m, dot(sub(Q, p), v), order=2))
    c.ensure_same('line kept', view_line(c, l), (p, v))
    c.vec_is('point kept', q, *Q)

@contract('G01', [L + 'compute_distance_between_abscissae', L + 'compute_distance', L + 'point_at_distance'])
def line_abscissae(c):
    """Distances along the line."""
    l, p, v = line(c, 'l')
    s, t, u = c.reals('s', 't', 'u')
    m = c.sqrt(dot(v, v))
    d = c.call(l.compute_distance_between_abscissae, s, t)
    c.ensure('distance', c.eq(d, abs(s - t)*m, order=2))
    a, b = l.interpolate(s), l.interpolate(t)
    c.ensure('is the distance of the points', c.eq(d*d, dot(sub(c.xy(a), c.xy(b)), sub(c.xy(a), c.xy(b))), order=4))
    ds = c.call(l.compute_distance, [s, t, u])
    c.ensure_same('list', tuple(ds), (abs(s - t)*m, abs(t - u)*m))
    base = c.vec('base') if c.bool('given') else None
    w = c.call(l.point_at_distance, s, base) if base is not None else c.call(l.point_at_distance, s)
    o = c.xy(base) if base is not None else p
    c.vec_is('at distance', w, o[0] + s*v[0]/m, o[1] + s*v[1]/m)
    c.ensure_same('line kept', view_line(c, l), (p, v))

@contract('G01', [L + 'get_y_from_x', L + 'get_x_from_y'])
def line_xy(c):
    """The point found from one coordinate lies on the line."""
    l, p, v = line(c, 'l')
    x = c.real('x')
    if not v[0] == 0:
        c.robust(v[0], tol=1e-2)
        y = c.call(l.get_y_from_x, x)
        c.ensure('y from x', c.eq(cross((x - p[0], y - p[1]), v), 0, order=2))
    if not v[1] == 0:
        c.robust(v[1], tol=1e-2)
        y = c.call(l.get_x_from_y, x)
        c.ensure('x from y', c.eq(cross((y - p[0], x - p[1]), v), 0, order=2))

@contract('G01', [L + 'parallel_line_at', L + 'shifted_parallel_line', L + 'orthogonal_line_at', L + 'orthogonal_line_at_abscissa'])
def derived_lines(c):
    """Derived lines have the promised point, direction and offset."""
    l, p, v = line(c, 'l')
    q = c.vec('q')
    Q = c.xy(q)
    s = c.real('s')
    m = c.sqrt(dot(v, v))
    Line = type(l)
    k = c.call(l.parallel_line_at, q)
    c.ensure_same('parallel', view_line(c, k), (Q, v))
    c.ensure('class', type(k) is Line)
    k = c.call(l.shifted_parallel_line, s)
    c.ensure_same('shifted', view_line(c, k), ((p[0] - s*v[1]/m, p[1] + s*v[0]/m), v))
    c.ensure('offset', c.eq(l.distance_to_line(k.p), s))
    k = c.call(l.orthogonal_line_at, q)
    c.ensure_same('orthogonal', view_line(c, k), (Q, (-v[1], v[0])))
    k = c.call(l.orthogonal_line_at_abscissa, s)
    c.ensure_same('orthogonal at abscissa', view_line(c, k), ((p[0] + s*v[0], p[1] + s*v[1]), (-v[1], v[0])))
    c.ensure('is orthogonal', bool(l.is_orthogonal(k)))
    c.ensure('is parallel', bool(l.is_parallel(l.shifted_parallel_line(s))))
    c.ensure_same('line kept', view_line(c, l), (p, v))
    c.vec_is('point kept', q, *Q)

@contract('G01', [L + 'intersection_abscissae', L + 'intersection', L + 'is_parallel'])
def line_intersection(c):
    """An intersection is reported exactly for lines that are not parallel, and lies on both."""
    l, p, v = line(c, 'l')
    k, q, w = line(c, 'k')
    cr = cross(v, w)
    s = c.call(l.intersection_abscissae, k)
    P = c.call(l.intersection, k)
    c.ensure('pair', len(s) == 2)
    if s[0] is None or s[1] is None:
        c.ensure('both none', s[0] is None and s[1] is None and P is None)
        c.ensure('parallel', c.le(abs(cr), c.q(1, 10**6)))
        c.ensure('says parallel', bool(l.is_parallel(k)))
    else:
        c.ensure('not parallel', c.not_(cr == 0))
        c.robust(cr, tol=1e-3)
        c.vec_is('first line', P, p[0] + s[0]*v[0], p[1] + s[0]*v[1])
        c.vec_is('second line', P, q[0] + s[1]*w[0], q[1] + s[1]*w[1])
    c.ensure_same('first kept', view_line(c, l), (p, v))
    c.ensure_same('second kept', view_line(c, k), (q, w))

@contract('G01', [L + 'intersection'])
def line_intersection_symmetric(c):
    """The intersection does not depend on the order of the lines."""
    l, p, v = line(c, 'l')
    k, q, w = line(c, 'k')
    c.robust(cross(v, w), tol=1e-3)
    a, b = c.call(l.intersection, k), c.call(k.intersection, l)
    if a is None or b is None:
        c.ensure('both none', a is None and b is None)
    else:
        c.ensure_same('same point', c.view(a), c.view(b))

@contract('G01', [L + 'triangle_projected_point'])
def triangle_projection(c):
    """The returned point is on the line, at the given distance of the point."""
    l, p, v = line(c, 'l')
    q = c.vec('q')
    d = c.real('d', nonneg=True)
    rev = c.bool('rev')
    Q = c.xy(q)
    h = cross(v, sub(Q, p))
    c.assume(c.le(h*h, d*d*dot(v, v)))
    if not c.symbolic:
        c.assume(h*h < d*d*dot(v, v)*(1 - 1e-6))
    m = c.call(l.triangle_projected_point, q, d, rev)
    c.ensure('on the line', c.eq(cross(sub(c.xy(m), p), v), 0, order=2))
    r = sub(c.xy(m), Q)
    c.ensure('distance', c.eq(dot(r, r), d*d, order=2))
    side = dot(r, v)
    c.ensure('side', c.le(side, 0, order=2) if rev else c.le(0, side, order=2))

# ------------------------------------------------------------------ G02

@contract('G02', [S + '__init__', S + 'vector', S + 'length', S + 'center', S + 'to_line', S + 'cross_product', S + 'cross',
                  G + 'Primitive:Primitive2P.interpolate', S + 'share_vertex_with'])
def segment_basics(c):
    """Length, centre, interpolation and supporting line follow from the end points."""
    a, b = c.vecs('a', 'b')
    A, B = c.xy(a), c.xy(b)
    Seg = c.cls(G + 'Segment.Segment2D')
    s = c.call(Seg, a, b)
    t = c.real('t')
    c.vec_is('p0', s.p0, *A)
    c.vec_is('p1', s.p1, *B)
    c.vec_is('start', s.start_point, *A)
    c.vec_is('end', s.end_point, *B)
    c.vec_is('vector', s.vector, B[0] - A[0], B[1] - A[1])
    c.vec_is('direction', s.direction, B[0] - A[0], B[1] - A[1])
    c.vec_is('center', s.center, (A[0] + B[0])/2, (A[1] + B[1])/2)
    c.ensure('length', c.eq(s.length, c.sqrt(dot(sub(A, B), sub(A, B)))))
    c.vec_is('interpolate', s.interpolate(t), A[0] + t*(B[0] - A[0]), A[1] + t*(B[1] - A[1]))
    c.vec_is('point_at_t', s.point_at_t(t), A[0] + t*(B[0] - A[0]), A[1] + t*(B[1] - A[1]))
    c.ensure('cross product', c.eq(s.cross_product, cross(A, B), order=2))
    l = s.to_line()
    c.ensure_same('line', view_line(c, l), (A, sub(B, A)))
    r = c.call(s.reverse)
    c.ensure('reverse class', type(r) is Seg)
    c.ensure_same('reverse', c.view(tuple(r.points)), (B, A))
    u, v = c.vecs('u', 'v')
    k = Seg(u, v)
    c.ensure('cross', c.eq(s.cross(k), cross(sub(B, A), sub(c.xy(v), c.xy(u))), order=2))
    a.x = a.x + 1
    c.vec_is('end point is copied', s.p0, *A)
    c.vec_is('end point 1 is kept', s.p1, *B)

@contract('G02', [S + 'share_vertex_with'])
def segment_share_vertex(c):
    """A vertex is reported exactly when the segments have a common end point."""
    s, A, B = segment(c, 's')
    k, C, D = segment(c, 'k')
    v = c.call(s.share_vertex_with, k)
    eq = lambda p, q: c.and_(p[0] == q[0], p[1] == q[1])
    if v is None:
        c.ensure('none shared', c.not_(c.or_(eq(A, C), eq(A, D), eq(B, C), eq(B, D))))
    else:
        V = c.xy(v)
        c.ensure('on first', c.or_(eq(V, A), eq(V, B)))
        c.ensure('on second', c.or_(eq(V, C), eq(V, D)))

def on_segment(c, p, a, b):
    d = sub(b, a)
    k = dot(sub(p, a), d)
    return c.and_(cross(d, sub(p, a)) == 0, 0 <= k, k <= dot(d, d))

@contract('G02', [S + 'intersect_with', T + 'triangle_orientation'], prove_ms=20000, max_paths=20000)
def segment_crossing(c):
    """Two segments are reported as crossing exactly when they share a point."""
    A = (c.real('A.x'), c.real('A.y'))
    u, v, w = [(c.real(n + '.x'), c.real(n + '.y')) for n in 'uvw']
    B, C, D = [(A[0] + x[0], A[1] + x[1]) for x in (u, v, w)]
    c.assume(c.or_(c.not_(u[0] == 0), c.not_(u[1] == 0)), distinct(c, v, w))
    Seg = c.cls(G + 'Segment.Segment2D')
    s, k = Seg(c.V(*A), c.V(*B)), Seg(c.V(*C), c.V(*D))
    r = bool(c.call(s.intersect_with, k))
    d1, d2 = cross(sub(B, A), sub(C, A)), cross(sub(B, A), sub(D, A))
    d3, d4 = cross(sub(D, C), sub(A, C)), cross(sub(D, C), sub(B, C))
    proper = ((d1 > 0 and d2 < 0) or (d1 < 0 and d2 > 0)) and ((d3 > 0 and d4 < 0) or (d3 < 0 and d4 > 0))
    if proper:
        c.ensure('crossing found', r)
    else:
        touch = c.or_(on_segment(c, C, A, B), on_segment(c, D, A, B), on_segment(c, A, C, D), on_segment(c, B, C, D))
        c.ensure('touching', c.iff(r, touch))
    c.ensure_same('first kept', c.view(tuple(s.points)), (A, B))
    c.ensure_same('second kept', c.view(tuple(k.points)), (C, D))

@contract('G02', [S + 'intersection'])
def segment_intersection(c):
    """A reported intersection lies on both lines; the flag tells whether it is inside both segments."""
    s, A, B = segment(c, 's')
    k, C, D = segment(c, 'k')
    cr = cross(sub(B, A), sub(D, C))
    c.robust(cr, tol=1e-3)
    if cr > 0 or cr == 0:
        pass
    P, flag = c.call(s.intersection, k)
    if P is None:
        c.ensure('flag none', flag is None)
        c.ensure('parallel', c.le(abs(cr), c.q(1, 10**6)))
    else:
        X = c.xy(P)
        c.ensure('on first', c.eq(cross(sub(X, A), sub(B, A)), 0, order=2, tol=1e-4))
        c.ensure('on second', c.eq(cross(sub(X, C), sub(D, C)), 0, order=2, tol=1e-4))
        sn, kn = cross(sub(C, A), sub(D, C)), cross(sub(C, A), sub(B, A))
        inside = c.and_(0 <= sn*cr, sn*cr <= cr*cr, 0 <= kn*cr, kn*cr <= cr*cr)
        if c.symbolic:
            c.ensure('inside both', c.iff(bool(flag), inside))
        else:
            c.robust(sn, kn, sn - cr, kn - cr)
            if all(x != 0 for x in (sn, kn, sn - cr, kn - cr)):
                c.ensure('inside both', bool(flag) == inside)

@contract('G02', [S + 'side_of', S + 'left_of', S + 'right_of', S + 'is_collinear'])
def segment_sides(c):
    """Side tests follow the sign of the cross product."""
    s, A, B = segment(c, 's')
    p = c.vec('p')
    P = c.xy(p)
    k = cross(sub(B, A), sub(P, A))
    c.ensure('side', c.eq(c.call(s.side_of, p), k, order=2))
    c.robust(k)
    c.ensure('left', c.iff(c.call(s.left_of, p), k > 0))
    c.ensure('right', c.iff(c.call(s.right_of, p), k < 0))
    c.ensure('collinear', c.iff(c.call(s.is_collinear, p), k == 0))
    c.vec_is('point kept', p, *P)

def segment_distance_square(c, P, A, B):
    """spec: square of the smallest distance of P to the points of [A, B]"""
    d, e = sub(B, A), sub(P, A)
    k, n = dot(e, d), dot(d, d)
    if k <= 0:
        return dot(e, e)
    if k >= n:
        f = sub(P, B)
        return dot(f, f)
    h = cross(d, e)
    return h*h/n

@functional('G02', S + 'distance_to_point', [SEGMENT, VEC], REAL)
def segment_distance(c, s, P):
    """The distance to a segment is the smallest distance to one of its points."""
    A, B = s[1], s[2]
    if A[0] == B[0] and A[1] == B[1]:
        return c.sqrt(dot(sub(P, A), sub(P, A)))
    return c.sqrt(segment_distance_square(c, P, A, B))

@contract('G02', [])
def segment_distance_lemma(c):
    """Lemma on the spec function: no point of the segment is closer."""
    A, B, P = [(c.real(n + '.x'), c.real(n + '.y')) for n in 'ABP']
    c.assume(distinct(c, A, B))
    # without loss of generality: the claim is invariant by translation
    t = c.real('t', lo=0, hi=1)
    d, e = sub(B, A), sub(P, A)
    k, n = dot(e, d), dot(d, d)
    X = (A[0] + t*d[0], A[1] + t*d[1])
    x2 = dot(sub(P, X), sub(P, X))
    # |P - X|^2 = |e|^2 - 2 t k + t^2 n
    c.ensure('expansion', c.eq(x2, dot(e, e) - 2*t*k + t*t*n, order=4))
    c.ensure('Lagrange', c.eq(dot(e, e)*n, k*k + cross(d, e)*cross(d, e), order=4))

@contract('G02', [])
def segment_distance_lemma_scalar(c):
    """Lemma: with E=|e|^2, k, n>0 and H the squared cross product (E n = k^2 + H), 0<=t<=1, the spec is a lower bound."""
    E, k, H, n = c.real('E', nonneg=True), c.real('k'), c.real('H', nonneg=True), c.real('n', pos=True)
    t = c.real('t', lo=0, hi=1)
    if not c.symbolic:
        H = abs(E*n - k*k)
    c.assume(c.eq(E*n, k*k + H, order=2))
    x2 = E - 2*t*k + t*t*n
    if k <= 0:
        c.ensure('before', c.le(E, x2, order=2))
    elif k >= n:
        c.ensure('after', c.le(E - 2*k + n, x2, order=2))
    else:
        c.ensure('between', c.le(H, x2*n, order=3))

@contract('G02', [S + 'contain_point'])
def segment_contain(c):
    """Points of a segment are contained, points away from it are not."""
    s, A, B = segment(c, 's')
    t = c.real('t', lo=0, hi=1)
    X = c.V(A[0] + t*(B[0] - A[0]), A[1] + t*(B[1] - A[1]))
    c.ensure('contains its points', bool(c.call(s.contain_point, X)))

@contract('G02', [S + 'contain_point'])
def segment_not_contain(c):
    s, A, B = segment(c, 's')
    p = c.vec('p')
    d2 = segment_distance_square(c, c.xy(p), A, B)
    c.assume(d2 > c.q(1, 10**12))
    c.ensure('does not contain', not bool(c.call(s.contain_point, p)))

# ------------------------------------------------------------------ G03

def triangle(c):
    a, b, d = c.vecs('p0', 'p1', 'p2')
    A, B, D = c.xy(a), c.xy(b), c.xy(d)
    k = cross(sub(B, A), sub(D, A))
    c.assume(abs(k) > c.q(1, 10**6))
    return c.cls(G + 'Triangle.Triangle2D')(a, b, d), A, B, D, k

def length(c, a, b):
    return c.sqrt(dot(sub(a, b), sub(a, b)))

@contract('G03', [T + 'Triangle2D.__init__'])
def triangle_flat(c):
    """A flat triangle is refused, another one is accepted."""
    a, b, d = c.vecs('p0', 'p1', 'p2')
    A, B, D = c.xy(a), c.xy(b), c.xy(d)
    k = cross(sub(B, A), sub(D, A))
    Tr = c.cls(G + 'Triangle.Triangle2D')
    if k == 0:
        c.ensure_raises('refused', ValueError, Tr, a, b, d)
    elif abs(k) > c.q(1, 10**6):
        t = c.call(Tr, a, b, d)
        c.ensure_same('vertices', c.view(tuple(t.points)), (A, B, D))
        c.ensure('closed', t.is_closed is True)

@contract('G03', [T + 'Triangle2D.area', T + 'Triangle2D.perimeter', T + 'Triangle2D.edges', T + 'Triangle2D._cache_length'])
def triangle_measures(c):
    """Area, perimeter and edges."""
    t, A, B, D, k = triangle(c)
    c.ensure('area', c.eq(c.call(lambda: t.area), abs(k)/2, order=2))
    c.ensure('perimeter', c.eq(c.call(lambda: t.perimeter), length(c, A, B) + length(c, B, D) + length(c, D, A)))
    e = c.call(lambda: t.edges)
    c.ensure_same('edges', tuple(c.view(tuple(x.points)) for x in e), ((A, B), (B, D), (D, A)))
    c.ensure_same('kept', c.view(tuple(t.points)), (A, B, D))
    # a later change of a vertex is seen
    t.p0 = (A[0] + 1, A[1])
    A2 = (A[0] + 1, A[1])
    c.ensure('perimeter follows the vertices',
             c.eq(c.call(lambda: t.perimeter), length(c, A2, B) + length(c, B, D) + length(c, D, A2)))

@contract('G03', [T + 'Triangle2D.is_point_inside', T + 'same_side'])
def triangle_inside(c):
    """Inside exactly when the point is a convex combination of the vertices."""
    t, A, B, D, k = triangle(c)
    p = c.vec('p')
    P = c.xy(p)
    l0, l1, l2 = cross(sub(D, B), sub(P, B)), cross(sub(A, D), sub(P, D)), cross(sub(B, A), sub(P, A))
    c.robust(l0, l1, l2)
    r = bool(c.call(t.is_point_inside, p))
    if k > 0:
        inside = c.and_(l0 >= 0, l1 >= 0, l2 >= 0)
    else:
        inside = c.and_(l0 <= 0, l1 <= 0, l2 <= 0)
    c.ensure('inside', c.iff(r, inside))
    # barycentric coordinates rebuild the point (the spec above is membership in the convex hull)
    c.ensure('barycentric x', c.eq(l0*A[0] + l1*B[0] + l2*D[0], k*P[0], order=3))
    c.ensure('barycentric y', c.eq(l0*A[1] + l1*B[1] + l2*D[1], k*P[1], order=3))
    c.ensure('weights', c.eq(l0 + l1 + l2, k, order=2))
    c.vec_is('point kept', p, *P)

@contract('G03', [T + 'triangle_orientation'])
def orientation(c):
    """The orientation is the sign of the cross product for a non flat triple."""
    a, b, d = c.vecs('p0', 'p1', 'p2')
    f = c.cls(T[:-1] + '.triangle_orientation')
    k = cross(sub(c.xy(b), c.xy(a)), sub(c.xy(d), c.xy(a)))
    r = c.call(f, a, b, d)
    if k > 0:
        c.ensure('counter clockwise', r == 1)
    elif k < 0:
        c.ensure('clockwise', r == -1)
    else:
        A, B, D = c.xy(a), c.xy(b), c.xy(d)
        c.assume(distinct(c, A, B))
        d1, d2 = sub(B, A), sub(D, A)
        if dot(d1, d2) < 0:
            c.ensure('behind', r == -1)
        elif dot(d2, d2) > dot(d1, d1):
            c.ensure('beyond', r == 1)
        else:
            c.ensure('between', r == 0)

@contract('G03', [T + 'Triangle2D.is_equilateral', T + 'Triangle2D.is_scalene', T + 'Triangle2D.is_isosceles'])
def triangle_kinds(c):
    """Equilateral, isosceles (exactly two equal sides) and scalene are exclusive and follow the side lengths."""
    t, A, B, D, k = triangle(c)
    a, b, d = [dot(sub(*x), sub(*x)) for x in ((A, B), (B, D), (D, A))]
    c.robust(a - b, b - d, d - a, tol=1e-3)
    same = (1 if a == b else 0) + (1 if b == d else 0) + (1 if d == a else 0)
    if not c.symbolic and same:
        c.assume(all(float(x).is_integer() for p in (A, B, D) for x in p))
    c.ensure('equilateral', bool(c.call(lambda: t.is_equilateral)) == (same == 3))
    c.ensure('scalene', bool(c.call(lambda: t.is_scalene)) == (same == 0))
    c.ensure('isosceles', bool(c.call(lambda: t.is_isosceles)) == (same == 1))

@contract('G03', [T + 'Triangle2D.is_obtuse', T + 'Triangle2D.is_acute', T + 'Triangle2D._cache_angle'], deadline=400)
def triangle_angles(c):
    """Obtuse exactly when one angle exceeds a right angle, acute when none reaches it."""
    t, A, B, D, k = triangle(c)
    ds = [dot(sub(B, A), sub(D, A)), dot(sub(A, B), sub(D, B)), dot(sub(A, D), sub(B, D))]
    c.robust(*ds, tol=1e-3)
    if not c.symbolic:
        c.assume(all(x != 0 for x in ds))
    c.ensure('obtuse', c.iff(bool(c.call(lambda: t.is_obtuse)), c.or_(*[x < 0 for x in ds])))
    c.ensure('acute', c.iff(bool(c.call(lambda: t.is_acute)), c.and_(*[x > 0 for x in ds])))

@contract('G03', [R + '__init__', R + 'from_point_and_offset', R + 'from_point_and_radius', R + 'p01', R + 'p10', R + 'edges',
                  R + 'diagonal', R + 'perimeter', R + 'area'])
def rectangle(c):
    """Corners, edges and measures of a rectangle, for each constructor."""
    a, b = c.vecs('a', 'b')
    A, B = c.xy(a), c.xy(b)
    Rect = c.cls(G + 'Rectangle.Rectangle2D')
    form = c.choice('form', 'corners', 'offset', 'radius')
    if form == 'corners':
        r = c.call(Rect, a, b)
        P, Q = A, B
    elif form == 'offset':
        r = c.call(Rect.from_point_and_offset, a, b)
        P, Q = A, (A[0] + B[0], A[1] + B[1])
    else:
        r = c.call(Rect.from_point_and_radius, a, b)
        P, Q = (A[0] - B[0], A[1] - B[1]), (A[0] + B[0], A[1] + B[1])
    c.ensure('class', type(r) is Rect)
    c.vec_is('p0', r.p0, *P)
    c.vec_is('p1', r.p1, *Q)
    c.vec_is('p01', r.p01, P[0], Q[1])
    c.vec_is('p10', r.p10, Q[0], P[1])
    c.ensure('closed', r.is_closed is True)
    e = [c.view(tuple(s.points)) for s in r.edges]
    c1, c2 = (P[0], Q[1]), (Q[0], P[1])
    c.ensure_same('edges', tuple(e), ((P, c1), (c1, Q), (Q, c2), (c2, P)))
    c.vec_is('diagonal', r.diagonal, Q[0] - P[0], Q[1] - P[1])
    c.ensure('perimeter', c.eq(r.perimeter, 2*abs(Q[0] - P[0]) + 2*abs(Q[1] - P[1])))
    c.ensure('area', c.eq(r.area, abs(Q[0] - P[0])*abs(Q[1] - P[1]), order=2))
    c.vec_is('operand a', a, *A)
    c.vec_is('operand b', b, *B)

@contract('G03', [R + 'is_point_inside'])
def rectangle_inside(c):
    """A point is inside exactly when both coordinates are between those of the corners."""
    a, b, p = c.vecs('a', 'b', 'p')
    A, B, P = c.xy(a), c.xy(b), c.xy(p)
    r = c.cls(G + 'Rectangle.Rectangle2D')(a, b)
    got = bool(c.call(r.is_point_inside, p))
    between = [c.or_(c.and_(A[i] <= P[i], P[i] <= B[i]), c.and_(B[i] <= P[i], P[i] <= A[i])) for i in (0, 1)]
    c.ensure('inside', c.iff(got, c.and_(*between)))
    c.ensure_same('corners kept', c.view(tuple(r.points)), (A, B))
    c.vec_is('point kept', p, *P)
