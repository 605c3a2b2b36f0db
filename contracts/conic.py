"""Circles and ellipses (C01) and their boxes (G04)."""

from dv.contract import contract
from contracts.vector import dot, cross, nonnull
from contracts.linear import sub, segment

G = 'Patro.GeometryEngine.'
K = G + 'Conic:Circle2D.'
E = G + 'Conic:Ellipse2D.'
D = G + 'Mixin:AngularDomain.'

def sq(p):
    return dot(p, p)

def circle(c, name='c'):
    o = c.vec(name + '.o')
    r = c.real(name + '.r', pos=True)
    c.robust(r, tol=1e-3)
    return c.cls(G + 'Conic.Circle2D')(o, r), c.xy(o), r

def domain(c, name='d'):
    a, b = c.real(name + '.a', lo=-360, hi=360), c.real(name + '.b', lo=-360, hi=360)
    return c.cls(G + 'Conic.AngularDomain')(a, b), a, b

def ellipse(c, name='e', rotated=None):
    o = c.vec(name + '.o')
    a, b = c.real(name + '.a', pos=True), c.real(name + '.b', pos=True)
    c.robust(a, b, tol=1e-2)
    g = c.angle(name + '.angle')
    return c.cls(G + 'Conic.Ellipse2D')(o, a, b, g), c.xy(o), a, b, g

def view_circle(c, k):
    d = k.domain
    return (k.center.x, k.center.y, k.radius, None if d is None else (d.start, d.stop))

def view_ellipse(c, k):
    d = k.domain
    return (k.center.x, k.center.y, k.radius_x, k.radius_y, k.angle, None if d is None else (d.start, d.stop))

def in_frame(c, p, o, g):
    """coordinates of p in the frame of centre o turned by g degrees"""
    x, y = p[0] - o[0], p[1] - o[1]
    co, si = c.cosd(g), c.sind(g)
    return (co*x + si*y, co*y - si*x)

def out_frame(c, f, o, g):
    """inverse of in_frame"""
    co, si = c.cosd(g), c.sind(g)
    return (o[0] + co*f[0] - si*f[1], o[1] + si*f[0] + co*f[1])

# ------------------------------------------------------------------ angular domains

@contract('C01', [D + '__init__', D + 'span', D + 'is_null', D + 'is_closed', D + 'is_over_closed', D + 'is_counterclockwise',
                  D + 'is_clockwise', D + 'length', D + 'is_inside', D + 'clone', D + 'start_radians', D + 'stop_radians'])
def angular_domain(c):
    """An angular domain: span, length and membership follow its two angles."""
    d, a, b = domain(c)
    c.ensure_same('angles', (d.start, d.stop), (a, b))
    c.ensure('span', c.eq(d.span, abs(b - a)))
    c.ensure('radians', c.and_(c.eq(d.start_radians*180, a*c.pi), c.eq(d.stop_radians*180, b*c.pi)))
    c.ensure('null', c.iff(d.is_null, a == b))
    c.ensure('closed', c.iff(d.is_closed, abs(b - a) >= 360))
    c.ensure('over closed', c.iff(d.is_over_closed, abs(b - a) > 360))
    c.ensure('counterclockwise', c.iff(d.is_counterclockwise, a <= b))
    c.ensure('clockwise', c.iff(d.is_clockwise, b < a))
    l = c.call(lambda: d.length)
    if abs(b - a) >= 360:
        c.ensure('length', c.eq(l, 2*c.pi))
    elif a <= b:
        c.ensure('length', c.eq(l*180, (b - a)*c.pi, order=2))
    else:
        c.ensure('length', c.eq(l*180, (360 + b - a)*c.pi, order=2))
    x = c.real('x', lo=-360, hi=720)
    if a <= b:
        c.ensure('inside', c.iff(d.is_inside(x), c.and_(a <= x, x <= b)))
    else:
        c.ensure('inside', c.iff(d.is_inside(x), c.or_(x <= b, a <= x)))
    k = c.call(d.clone)
    c.ensure_same('clone', (k.start, k.stop), (a, b))
    k.start = a + 1
    c.ensure_same('independent', (d.start, d.stop), (a, b))
    r = c.call(type(d), a*c.pi/180, b*c.pi/180, degrees=False)
    c.ensure_same('from radians', (r.start, r.stop), (a, b))

# ------------------------------------------------------------------ circles

@contract('C01', [K + '__init__', K + 'from_two_points', K + 'diameter', K + 'eccentricity', K + 'perimeter', K + 'area', K + 'radius'])
def circle_measures(c):
    k, o, r = circle(c)
    c.ensure_same('circle', view_circle(c, k), (o[0], o[1], r, None))
    c.ensure('diameter', c.eq(k.diameter, 2*r))
    c.ensure('eccentricity', c.eq(k.eccentricity, 0))
    c.ensure('perimeter', c.eq(k.perimeter, 2*c.pi*r))
    c.ensure('area', c.eq(k.area, c.pi*r*r, order=2))
    c.ensure('closed', k.is_closed is True and k.start_point is None and k.stop_point is None)
    Circle = type(k)
    k = c.call(Circle, c.V(*o), 2*r, diameter=True)
    c.ensure_same('from diameter', view_circle(c, k), (o[0], o[1], r, None))
    a = c.real('a', lo=-360, hi=360)
    s = c.real('s', lo=0, hi=720)
    k = c.call(Circle, c.V(*o), r, domain=c.cls(G + 'Conic.AngularDomain')(a, a + s))
    c.ensure('open', k.is_closed is False)
    if s < 360:
        c.ensure('length of an arc', c.eq(180*k.perimeter, r*s*c.pi, order=2))
    c.vec_is('start', k.start_point, o[0] + r*c.cosd(a), o[1] + r*c.sind(a))
    c.vec_is('stop', k.stop_point, o[0] + r*c.cosd(a + s), o[1] + r*c.sind(a + s))
    l = c.real('l', pos=True)
    k = c.call(Circle, c.V(*o), r, start_angle=a, distance=l)
    c.robust(l - 2*c.pi*r)
    if l > 2*c.pi*r:
        c.ensure('whole circle', k.is_closed)
    else:
        c.ensure('arc', not k.is_closed)
        c.ensure('arc start', c.eq(k.domain.start, a))
        c.ensure('arc length', c.eq((k.domain.stop - a)*c.pi*r, 180*l, order=2))
    p = c.vec('p')
    k = c.call(Circle.from_two_points, c.V(*o), p)
    P = c.xy(p)
    c.ensure('passes by the point', c.eq(k.radius*k.radius, sq(sub(P, o)), order=2))
    c.vec_is('centre', k.center, *o)

@contract('C01', [K + 'point_at_angle', K + 'point_at_distance', K + 'tangent_at_angle', K + 'point_in_circle_frame'])
def circle_points(c):
    k, o, r = circle(c)
    a = c.angle('a')
    p = c.call(k.point_at_angle, a)
    c.vec_is('point', p, o[0] + r*c.cosd(a), o[1] + r*c.sind(a))
    c.ensure('equation', c.eq(sq(sub(c.xy(p), o)), r*r, order=2))
    t = c.call(k.tangent_at_angle, a)
    c.vec_is('tangent point', t.p, *c.xy(p))
    c.ensure('tangent orthogonal to the radius', c.eq(dot(c.xy(t.v), sub(c.xy(p), o)), 0, order=2))
    c.ensure('tangent has a direction', nonnull(c, c.xy(t.v)))
    s = c.real('s')
    q = c.call(k.point_at_distance, s)
    c.ensure('equation at distance', c.eq(sq(sub(c.xy(q), o)), r*r, order=2))
    c.vec_is('point at distance', q, o[0] + r*c.cos(s/r), o[1] + r*c.sin(s/r))
    c.ensure_same('circle kept', view_circle(c, k), (o[0], o[1], r, None))

@contract('C01', [K + 'is_point_inside', K + 'signed_distance_to_point', K + 'distance_to_point', K + 'angle_for_point'])
def circle_membership(c):
    k, o, r = circle(c)
    p = c.vec('p')
    P = c.xy(p)
    d2 = sq(sub(P, o))
    c.robust(d2 - r*r)
    c.ensure('inside', c.iff(k.is_point_inside(p), d2 <= r*r))
    s = c.call(k.signed_distance_to_point, p)
    c.ensure('signed distance', c.eq((s + r)*(s + r), d2, order=2))
    c.ensure('signed distance bound', c.ge(s, -r))
    d = c.call(k.distance_to_point, p)
    c.ensure('distance', c.eq(d*d, s*s, order=2))
    c.ensure('distance sign', c.ge(d, 0))
    if d2 > 0:
        a = c.call(k.angle_for_point, p)
        c.ensure('angle range', c.and_(c.ge(a, 0), c.le(a, 360)))
        m = c.sqrt(d2)
        c.ensure('angle cosine', c.eq(m*c.cosd(a), P[0] - o[0]))
        c.ensure('angle sine', c.eq(m*c.sind(a), P[1] - o[1]))
    c.vec_is('point kept', p, *P)
    c.ensure_same('circle kept', view_circle(c, k), (o[0], o[1], r, None))

def points_of(x):
    if x is None:
        return ()
    return tuple(x) if isinstance(x, (tuple, list)) else (x,)

@contract('C01', [K + 'intersect_segment'])
def circle_line(c):
    """Every reported point is on the circle and the supporting line; every common point is reported."""
    k, o, r = circle(c)
    l, p, q = segment(c, 's')
    v = sub(q, p)
    h = cross(v, sub(o, p))
    disc = r*r*sq(v) - h*h
    c.robust(disc, tol=1e-3)
    res = points_of(c.call(k.intersect_segment, l))
    c.ensure('number', c.iff(len(res) == 0, disc < 0))
    c.ensure('number', c.iff(len(res) == 1, disc == 0))
    for i, x in enumerate(res):
        c.ensure(f'on the circle', c.eq(sq(sub(c.xy(x), o)), r*r, order=2))
        c.ensure(f'on the line', c.eq(cross(sub(c.xy(x), p), v), 0, order=2))
    if len(res) == 2:
        w = sub(c.xy(res[1]), c.xy(res[0]))
        c.ensure('distinct', c.eq(sq(w)*sq(v), 4*disc, order=4))
    c.ensure_same('segment kept', c.view(l.p0) + c.view(l.p1), p + q)
    c.ensure_same('circle kept', view_circle(c, k), (o[0], o[1], r, None))

@contract('C01', [K + 'intersect_circle'])
def circle_circle(c):
    """Every reported point is on both circles; two circles that meet report all their common points."""
    k, o, r = circle(c, 'c')
    l, u, s = circle(c, 'd')
    v = sub(u, o)
    d2 = sq(v)
    c.assume(d2 > 0)
    c.robust(v[0], v[1], d2, tol=1e-2)
    # the circles meet iff |r-s| <= d <= r+s
    disc = ((r + s)*(r + s) - d2)*(d2 - (r - s)*(r - s))
    c.robust(disc, tol=1e-2)
    res = points_of(c.call(k.intersect_circle, l))
    c.ensure('number', c.iff(len(res) == 0, disc < 0))
    c.ensure('number', c.iff(len(res) == 1, disc == 0))
    for x in res:
        c.ensure('on the first circle', c.eq(sq(sub(c.xy(x), o)), r*r, order=2))
        c.ensure('on the second circle', c.eq(sq(sub(c.xy(x), u)), s*s, order=2))
    if len(res) == 2:
        w = sub(c.xy(res[1]), c.xy(res[0]))
        c.ensure('distinct', c.eq(sq(w)*d2, disc, order=4))
    c.ensure_same('circle kept', view_circle(c, k), (o[0], o[1], r, None))
    c.ensure_same('other circle kept', view_circle(c, l), (u[0], u[1], s, None))

# ------------------------------------------------------------------ ellipses

@contract('C01', [E + '__init__', E + 'point_at_angle', E + 'point_in_ellipse_frame', E + 'point_from_ellipse_frame',
                  E + 'major_vector', E + 'minor_vector', E + 'matrix'])
def ellipse_points(c):
    e, o, a, b, g = ellipse(c)
    c.ensure_same('ellipse', view_ellipse(c, e), (o[0], o[1], a, b, g, None))
    t = c.angle('t')
    p = c.call(e.point_at_angle, t)
    x, y = in_frame(c, c.xy(p), o, g)
    c.ensure_same('point', (x, y), (a*c.cosd(t), b*c.sind(t)))
    c.ensure('equation', c.eq(x*x*b*b + y*y*a*a, a*a*b*b, order=4))
    q = c.vec('q')
    Q = c.xy(q)
    f = c.call(e.point_in_ellipse_frame, q)
    c.ensure_same('in frame', c.view(f), in_frame(c, Q, o, g))
    h = c.call(e.point_from_ellipse_frame, f)
    c.vec_is('and back', h, *Q)
    c.vec_is('point kept', q, *Q)
    c.vec_is('major vector', e.major_vector, a*c.cosd(g), a*c.sind(g))
    c.vec_is('minor vector', e.minor_vector, -b*c.sind(g), b*c.cosd(g))
    m = c.call(e.matrix)
    X, Y = Q
    form = m[0, 0]*X*X + m[1, 1]*Y*Y + m[2, 2] + (m[0, 1] + m[1, 0])*X*Y + (m[0, 2] + m[2, 0])*X + (m[1, 2] + m[2, 1])*Y
    fx, fy = in_frame(c, Q, o, g)
    c.ensure('quadratic form', c.eq(form, b*b*fx*fx + a*a*fy*fy - a*a*b*b, order=6))
    c.ensure_same('ellipse kept', view_ellipse(c, e), (o[0], o[1], a, b, g, None))

@contract('C01', [E + 'is_point_inside', E + 'eccentricity', E + 'distance_to_point'])
def ellipse_membership(c):
    e, o, a, b, g = ellipse(c)
    p = c.vec('p')
    P = c.xy(p)
    x, y = in_frame(c, P, o, g)
    lhs = x*x*b*b + y*y*a*a
    c.robust(lhs - a*a*b*b, tol=1e-3)
    r = c.call(e.is_point_inside, p)
    c.ensure('inside', c.iff(r, lhs <= a*a*b*b))
    c.ensure('same answer', c.iff(e.distance_to_point(p, is_inside=True), r))
    k = c.call(lambda: e.eccentricity)
    if b <= a:
        c.ensure('eccentricity', c.eq(k*k*a*a, a*a - b*b, order=2))
    else:
        c.ensure('eccentricity', c.eq(k*k*b*b, b*b - a*a, order=2))
    c.ensure('eccentricity sign', c.ge(k, 0))
    c.vec_is('point kept', p, *P)
    c.ensure_same('ellipse kept', view_ellipse(c, e), (o[0], o[1], a, b, g, None))

@contract('C01', [E + 'intersect_segment'])
def ellipse_line(c):
    """Every reported point is on the ellipse and the supporting line; every common point is reported."""
    e, o, a, b, g = ellipse(c)
    # an arbitrary segment, by its coordinates in the frame of the ellipse
    fp, fq = tuple(c.reals('p.x', 'p.y')), tuple(c.reals('q.x', 'q.y'))
    p, q = out_frame(c, fp, o, g), out_frame(c, fq, o, g)
    fv, v = sub(fq, fp), sub(q, p)
    c.assume(nonnull(c, fv))
    c.robust(fv[0], fv[1], tol=1e-3)
    l = c.cls(G + 'Segment.Segment2D')(c.V(*p), c.V(*q))
    h = cross(fv, fp)
    # a line a x + b y = h meets the ellipse iff the support value is large enough
    disc = a*a*fv[1]*fv[1] + b*b*fv[0]*fv[0] - h*h
    c.robust(disc, tol=1e-2, zero=True)
    res = points_of(c.call(e.intersect_segment, l))
    c.ensure('number', c.iff(len(res) == 0, disc < 0))
    c.ensure('number', c.iff(len(res) == 1, disc == 0))
    for x in res:
        fx, fy = in_frame(c, c.xy(x), o, g)
        c.ensure('on the ellipse', c.eq(fx*fx/(a*a) + fy*fy/(b*b), 1, order=2))
        c.ensure('on the line', c.eq(cross(sub(c.xy(x), p), v), 0, order=2))
    c.ensure_same('segment kept', c.view(l.p0) + c.view(l.p1), p + q)
    c.ensure_same('ellipse kept', view_ellipse(c, e), (o[0], o[1], a, b, g, None))

def ellipse_from_end_points(c, large, sweep):
    """The arc starts and stops at the given points, with the given radii (grown when too small), the side and sense asked for."""
    # two arbitrary distinct points, by their middle and half difference in the frame of the ellipse
    m = tuple(c.reals('m.x', 'm.y'))
    f = tuple(c.reals('f.x', 'f.y'))
    c.assume(nonnull(c, f))
    c.robust(f[0], f[1], tol=1e-3)
    a, b = c.real('a', nonzero=True), c.real('b', nonzero=True)
    c.robust(a, b, tol=1e-2)
    g = c.angle('g')
    P, Q = out_frame(c, f, m, g), out_frame(c, (-f[0], -f[1]), m, g)
    p, q = c.V(*P), c.V(*Q)
    e = c.call(c.cls(G + 'Conic.Ellipse2D').svg_arc, p, q, a, b, g, large, sweep)
    c.ensure('angle', c.eq(e.angle, g))
    # radii: the given ones when the points fit, else the smallest ones in the same ratio
    x, y = f
    lam = x*x/(a*a) + y*y/(b*b)
    c.robust(lam - 1, tol=1e-3)
    if lam > 1:
        c.ensure('grown radii', c.eq(e.radius_x*e.radius_x, lam*a*a, order=2))
        c.ensure('grown radii', c.eq(e.radius_y*e.radius_y, lam*b*b, order=2))
    else:
        c.ensure('radii', c.and_(c.eq(e.radius_x, abs(a)), c.eq(e.radius_y, abs(b))))
    c.ensure('positive radii', c.and_(e.radius_x > 0, e.radius_y > 0))
    for label, X in (('first', P), ('second', Q)):
        fx, fy = in_frame(c, X, c.xy(e.center), g)
        c.ensure(f'through the {label} point', c.eq((fx/e.radius_x)*(fx/e.radius_x) + (fy/e.radius_y)*(fy/e.radius_y), 1, order=2))
    c.vec_is('start', e.start_point, *P)
    c.vec_is('stop', e.stop_point, *Q)
    d = e.domain
    if sweep:
        c.ensure('sense', c.gt(d.stop, d.start))
    else:
        c.ensure('sense', c.gt(d.start, d.stop))
    if large:
        c.ensure('large arc', c.ge(d.span, 180))
    else:
        c.ensure('small arc', c.le(d.span, 180))
    c.vec_is('points kept', p, *P)
    c.vec_is('points kept', q, *Q)

for _large in (False, True):
    for _sweep in (False, True):
        def _fn(c, large=_large, sweep=_sweep):
            ellipse_from_end_points(c, large, sweep)
        _fn.__doc__ = ellipse_from_end_points.__doc__
        _fn.__name__ = f'svg_arc_{"large" if _large else "small"}_{"positive" if _sweep else "negative"}'
        contract('C01', [E + 'svg_arc'], deadline=400)(_fn)

@contract('C01', [E + 'svg_arc'])
def arc_without_radius(c):
    """A null radius gives the straight segment."""
    p, q = c.vecs('p', 'q')
    P, Q = c.xy(p), c.xy(q)
    a, b = (0, c.real('b')) if c.bool('x') else (c.real('a'), 0)
    s = c.call(c.cls(G + 'Conic.Ellipse2D').svg_arc, p, q, a, b, c.angle('g'), c.bool('large'), c.bool('sweep'))
    c.ensure('segment', type(s) is c.cls(G + 'Segment.Segment2D'))
    c.ensure_same('end points', c.view(s.p0) + c.view(s.p1), P + Q)

@contract('C01', [E + '_bezier_arc'])
def bezier_arc(c):
    """The Bezier piece of an arc has the arc's end points, end tangents and middle point."""
    e, o, a, b, g = ellipse(c)
    s = c.angle('s')
    u = c.angle('u', lo=c.q(-45, 2), hi=c.q(45, 2))   # quarter of the span
    c.assume(c.not_(u == 0))
    c.robust(u, tol=1e-2)
    h = 4*u
    k = c.call(e._bezier_arc, s, s + h)
    p0, p1, p2, p3 = [in_frame(c, c.xy(x), o, g) for x in k.points]
    c.ensure_same('start', p0, (a*c.cosd(s), b*c.sind(s)))
    c.ensure_same('stop', p3, (a*c.cosd(s + h), b*c.sind(s + h)))
    t0 = (-a*c.sind(s), b*c.cosd(s))
    t3 = (-a*c.sind(s + h), b*c.cosd(s + h))
    c.ensure('start tangent', c.eq(cross(sub(p1, p0), t0), 0, order=2))
    c.ensure('stop tangent', c.eq(cross(sub(p3, p2), t3), 0, order=2))
    c.ensure_same('ellipse kept', view_ellipse(c, e), (o[0], o[1], a, b, g, None))

# ------------------------------------------------------------------ boxes

@contract('G04', [K + 'bounding_box'])
def circle_box(c):
    """The box of a circle is its exact extent; it is handed out fresh."""
    k, o, r = circle(c)
    b = c.call(lambda: k.bounding_box)
    c.ensure_same('extent', c.view(b), (o[0] - r, o[0] + r, o[1] - r, o[1] + r))
    b |= c.vec('q').bounding_box
    b.enlarge(3)
    c.ensure_same('circle kept', view_circle(c, k), (o[0], o[1], r, None))
    c.ensure_same('fresh', c.view(k.bounding_box), (o[0] - r, o[0] + r, o[1] - r, o[1] + r))

@contract('G04', [E + 'bounding_box'])
def ellipse_box(c):
    """The box of an ellipse encloses every point of it and each side is reached."""
    e, o, a, b, g = ellipse(c)
    box = c.call(lambda: e.bounding_box)
    co, si = c.cosd(g), c.sind(g)
    wx, wy = a*a*co*co + b*b*si*si, a*a*si*si + b*b*co*co
    hx, hy = box.x.sup - o[0], box.y.sup - o[1]
    c.ensure('symmetric', c.and_(c.eq(box.x.inf, o[0] - hx), c.eq(box.y.inf, o[1] - hy)))
    c.ensure('half width', c.and_(c.eq(hx*hx, wx, order=2), c.ge(hx, 0)))
    c.ensure('half height', c.and_(c.eq(hy*hy, wy, order=2), c.ge(hy, 0)))
    t = c.angle('t')
    p = e.point_at_angle(t)
    dx, dy = p.x - o[0], p.y - o[1]
    c.ensure('encloses', c.and_(c.le(dx*dx, wx, order=2), c.le(dy*dy, wy, order=2)))
    old = c.view(box)
    box.enlarge(2)
    c.ensure_same('fresh', c.view(e.bounding_box), old)
    e.radius_x = a + 1
    n = e.bounding_box
    c.ensure('follows the radii', c.eq((n.x.sup - o[0])*(n.x.sup - o[0]), (a + 1)*(a + 1)*co*co + b*b*si*si, order=2))
