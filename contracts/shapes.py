"""Shapes: transformation, clone and later queries (T02).

Two-state contract of every shape class: after any history of queries and in-place transformations, each query equals the
query of a shape freshly built from the current defining points; the source of a clone never changes with the clone."""

import inspect

from dv.contract import contract
from contracts.transform import transformation

G = 'Patro.GeometryEngine.'
P = G + 'Primitive:'

class Shape:
    def __init__(self, path, n, methods=(), skip=(), guard=None, build=None):
        self.path, self.n, self.methods, self.skip, self.guard, self.build_ = path, n, methods, skip, guard, build
    def cls(self, c): return c.cls(G + self.path)
    def build(self, c, pts):
        """a new shape with these defining points (coordinates)"""
        pts = [c.V(*p) for p in pts]
        return self.build_(c, pts) if self.build_ else self.cls(c)(*pts)

def at(name, *args):
    return (name, lambda s, q: getattr(s, name)(*args))
def with_point(name):
    return (name, lambda s, q: getattr(s, name)(q))

def flat(c, pts):
    (x0, y0), (x1, y1), (x2, y2) = pts
    return (x1 - x0)*(y2 - y0) - (x2 - x0)*(y1 - y0)

def not_flat(c, pts):
    k = flat(c, pts)
    c.assume(abs(k) > c.q(1, 10**6))

def distinct(c, pts):
    for i, p in enumerate(pts):
        for q in pts[i+1:]:
            d = (p[0] - q[0])*(p[0] - q[0]) + (p[1] - q[1])*(p[1] - q[1])
            c.assume(d > (0 if c.symbolic else 1e-2))

SHAPES = dict(
    segment=Shape('Segment.Segment2D', 2, [with_point('distance_to_point'), with_point('side_of'), at('interpolate', 3),
                                           with_point('contain_point'), at('to_line')], guard=distinct),
    rectangle=Shape('Rectangle.Rectangle2D', 2, [with_point('is_point_inside'), with_point('distance_to_point'), at('to_polygon')],
                    guard=distinct),
    triangle=Shape('Triangle.Triangle2D', 3, [with_point('is_point_inside'), at('to_polygon')],
                   skip=('circumcenter', 'in_circle', 'bisector_vector0', 'bisector_vector1', 'bisector_vector2',
                         'bisector_line0', 'bisector_line1', 'bisector_line2', 'orthocenter'), guard=not_flat),
    quadratic=Shape('Bezier.QuadraticBezier2D', 3, [at('point_at_t', 3), at('tangent_at', 2), at('split_at_t', 5), at('to_cubic'),
                                                    at('split_at_two_t', 0, 1)], guard=not_flat),
    quadratic_length=Shape('Bezier.QuadraticBezier2D', 3, [('length_at_t', lambda s, q: s.length_at_t(1, cache=True))],
                           guard=not_flat),
    cubic=Shape('Bezier.CubicBezier2D', 4, [at('point_at_t', 3), at('tangent_at', 2), at('split_at_t', 5), at('to_spline')],
                skip=('length',), guard=lambda c, p: (not_flat(c, p[:3]), not_flat(c, p[1:]))),
    quadratic_spline=Shape('Spline.QuadraticUniformSpline2D', 3, [at('point_at_t', 3), at('to_bezier')]),
    cubic_spline=Shape('Spline.CubicUniformSpline2D', 4, [at('point_at_t', 3), at('to_bezier')]),
    polyline=Shape('Polyline.Polyline2D', 3, [at('to_path'), with_point('distance_to_point')], guard=distinct),
    spline=Shape('Spline.BSpline2D', 5, [('point_at_t', lambda s, q: s.point_at_t(s.start_knot)), at('to_bezier'),
                                         ('insert_knot', lambda s, q: s.insert_knot(1))],
                 build=lambda c, p: c.cls(G + 'Spline.BSpline2D')(p, 2)),
    polygon3=Shape('Polygon.Polygon2D', 3, [with_point('is_point_inside'), at('to_triangle'), at('_compute_area_barycenter'),
                                            at('to_path')],
                   skip=('major_axis_angle',), guard=not_flat),
    polygon4=Shape('Polygon.Polygon2D', 4, [with_point('is_point_inside'), at('to_path')],
                   skip=('major_axis_angle',), guard=lambda c, p: (not_flat(c, p[:3]), not_flat(c, p[1:]))),
)

def queries(c, shape, obj):
    """every public property of the class, whatever its number, and the methods listed"""
    out = []
    for name in sorted(dir(type(obj))):
        if not name.startswith('_') and name not in shape.skip and \
                isinstance(inspect.getattr_static(type(obj), name), property):
            out.append((name, lambda s, q, name=name: getattr(s, name)))
    return out + list(shape.methods)

def answer(c, obj, query, q):
    """value of a query, or the kind of refusal"""
    try:
        r = query(obj, q)
        return c.view(tree(c, r))
    except (ArithmeticError, ValueError, NotImplementedError, AttributeError) as e:
        return ('raises', type(e).__name__)

def tree(c, r):
    """observable value: nested numbers and texts"""
    names = {k.__name__ for k in type(r).__mro__}
    if 'Path2D' in names:
        return ('Path2D', c.xy(r.p0)) + tuple((type(s).__name__, tree(c, s.stop_point)) for s in r) + (r.is_closed,)
    if 'Line2D' in names:
        return ('Line2D', c.xy(r.p), c.xy(r.v))
    if 'Circle2D' in names:
        return ('Circle2D', c.xy(r.center), r.radius)
    if 'ndarray' in names or 'Vector2DBase' in names:
        return r
    if 'PointPrimitive' in names:
        return (type(r).__name__,) + tuple(c.xy(p) for p in r.points)
    if isinstance(r, (list, tuple)) or hasattr(r, '__next__'):
        return tuple(tree(c, x) for x in r)
    return r

def move(c, how, shape, obj, t, clone=False):
    if how == 'transform':
        return c.call(obj.transform, t, clone)
    if how == 'rotate':
        return c.call(obj.rotate, c.angle('angle'), clone)
    if how == 'scale':
        return c.call(obj.scale, c.real('sx'), c.real('sy'), clone)
    return c.call(getattr(obj, how), clone)

def image(c, how, coef, p):
    x, y = p
    if how == 'transform':
        a, b, tx, d, e, ty = coef
    elif how == 'rotate':
        g = c.angle('angle')
        a, b, tx, d, e, ty = c.cosd(g), -c.sind(g), 0, c.sind(g), c.cosd(g), 0
    elif how == 'scale':
        a, b, tx, d, e, ty = c.real('sx'), 0, 0, 0, c.real('sy'), 0
    else:
        a, b, tx, d, e, ty = dict(mirror=(-1, 0, 0, 0, -1, 0), x_mirror=(-1, 0, 0, 0, 1, 0), y_mirror=(1, 0, 0, 0, -1, 0))[how]
    return (a*x + b*y + tx, d*x + e*y + ty)

def regular(c, pts, shape):
    if shape.guard:
        shape.guard(c, pts)

def state(c, x, depth=0, seen=()):
    """everything an object remembers, as nested tuples"""
    if depth > 6 or any(x is y for y in seen):
        return '...'
    if isinstance(x, type):
        return x.__name__
    names = {k.__name__ for k in type(x).__mro__}
    if c.is_number(x) or x is None or isinstance(x, (str, bool)):
        return x
    if 'Vector2DBase' in names or 'ndarray' in names:
        return (type(x).__name__, c.view(x))
    if isinstance(x, (list, tuple)):
        return ('sequence',) + tuple(state(c, y, depth + 1, seen + (x,)) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((str(k), state(c, x[k], depth + 1, seen + (x,))) for k in sorted(x, key=str))
    if hasattr(x, '__dict__'):
        return (type(x).__name__,) + tuple((k, state(c, v, depth + 1, seen + (x,)))
                                           for k, v in sorted(vars(x).items()))
    return type(x).__name__

TWIN = ((1, 2), (5, 1), (7, 6), (2, 8), (-3, 4))

def remembered(c, shape, obj):
    """obj remembers what a shape with other points remembers after all its queries: stands for any past of obj"""
    twin = shape.build(c, TWIN[:shape.n])
    cold = {k: state(c, v) for k, v in vars(twin).items()}
    q = c.V(3, 3)
    for name, f in queries(c, shape, twin):
        try:
            answer(c, twin, f, q)
        except BaseException as e:
            if type(e).__name__ != 'Unsupported':
                raise
    for k, v in vars(twin).items():
        if k not in cold or c.same(cold[k], state(c, v)) is not True:
            vars(obj)[k] = v

class Stale(Exception):
    pass

class Poison:
    """a remembered value that must not be used"""
    def refuse(self, *a, **kw):
        raise Stale()
    __getattr__ = __getitem__ = __len__ = __iter__ = __bool__ = __call__ = __eq__ = __lt__ = __add__ = __mul__ = refuse
    __radd__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __neg__ = __float__ = __contains__ = refuse
    __hash__ = None

TWINS = (TWIN, ((2, 8), (7, 6), (5, 1), (1, 2), (0, 5)), ((0, 0), (8, 0), (3, 3), (0, 8), (-2, 1)))

def reads(c, shape, kept):
    """queries that depend on the attributes kept"""
    out = []
    q = c.V(3, 3)
    for pts in TWINS:
        fresh = shape.build(c, pts[:shape.n])
        for n, f in queries(c, shape, fresh):
            fresh, obj = shape.build(c, pts[:shape.n]), shape.build(c, pts[:shape.n])
            for k in kept:
                vars(obj)[k] = Poison()
            try:
                want, got = answer(c, fresh, f, q), answer(c, obj, f, q)
                if not provable(c, c.same(want, got)):
                    out.append((n, 'a former answer'))
            except Stale:
                out.append((n, 'a former answer'))
            except BaseException as e:
                if type(e).__name__ != 'Unsupported':
                    raise
    return out

def provable(c, cond):
    return cond if isinstance(cond, bool) else c.E.prove(cond, 2000)[0] == 'proved'

def history(kind):
    shape = SHAPES[kind]
    def check(c):
        """Queries after a transformation answer as a freshly built shape; each defining point is mapped.

        Proof: whatever the shape remembers of its past, after the transformation it remembers exactly what a freshly
        built shape does, and a query only depends on what the shape remembers.  Runs on the untouched code compare the
        queries themselves."""
        pts = [c.xy(c.vec(f'p{i}')) for i in range(shape.n)]
        regular(c, pts, shape)
        obj = c.call(shape.build, c, pts)
        q = c.vec('q')
        qs = queries(c, shape, obj)
        how = c.choice('how', 'transform', 'rotate', 'scale', 'mirror', 'x_mirror', 'y_mirror')
        t, coef = None, None
        if how == 'transform':
            t, coef = transformation(c, 't', True, ('Identity', 'Translation', 'Rotation', 'Generic'))
        if c.symbolic:
            if how != 'transform' or t.type.name != 'Identity':
                remembered(c, shape, obj)
        else:
            for n, f in qs:
                answer(c, obj, f, q)
        if c.symbolic and how == 'scale':
            c.assume(c.not_(c.and_(c.eq(c.real('sx'), 1), c.eq(c.real('sy'), 1))))   # see Identity
        points = [image(c, how, coef, p) for p in pts]
        regular(c, points, shape)
        r = move(c, how, shape, obj, t)
        c.ensure('in place', r is obj)
        c.ensure_same('points', tuple(c.view(p) for p in obj.points), tuple(points))
        fresh = c.call(shape.build, c, points)
        if c.symbolic:
            after, new = vars(obj), vars(fresh)
            kept = [k for k in sorted(set(after) | set(new))
                    if not (k not in new and (after[k] is None or isinstance(after[k], (dict, list, tuple)) and not after[k]) or
                            k in after and k in new and provable(c, c.same(state(c, after[k]), state(c, new[k]))))]
            if not kept:
                c.ensure('no answer computed earlier survives', True)
            else:
                # what differs must be overwritten before it is read
                for n, why in reads(c, shape, kept):
                    c.ensure('no answer computed earlier survives', False, detail=f'{n} reads {why}, kept in {kept}')
                c.ensure('no answer computed earlier survives', True)
        else:
            # each answer is that of a shape that was asked nothing else before, whatever was asked first
            for again in (False, True):
                for n, f in qs:
                    fresh = shape.build(c, points)
                    c.ensure_same(f'query {n}', answer(c, obj, f, q), answer(c, fresh, f, q))
    check.__name__ = 'history_of_' + kind
    check.__module__ = __name__
    return contract('T02', [P + 'PointPrimitive.transform', P + 'PointPrimitive.apply_transformation',
                            G + shape.path.split('.')[0] + ':' + shape.path.split('.')[1]])(check)

def cloning(kind):
    shape = SHAPES[kind]
    def check(c):
        """A clone equals its source; neither follows the other; transforming a copy leaves the source untouched."""
        pts = [c.xy(c.vec(f'p{i}')) for i in range(shape.n)]
        regular(c, pts, shape)
        obj = c.call(shape.build, c, pts)
        attributes = defining(c, obj)
        k = c.call(obj.clone)
        c.ensure('same type', type(k) is type(obj))
        c.ensure_same('same defining attributes', defining(c, k), attributes)
        c.ensure('another object', k is not obj)
        how = c.choice('how', 'transform', 'mirror', 'x_mirror', 'y_mirror', 'rotate', 'scale')
        t, coef = transformation(c, 't', True, ('Identity', 'Translation', 'Generic')) if how == 'transform' else (None, None)
        points = [image(c, how, coef, p) for p in pts]
        regular(c, points, shape)
        m = move(c, how, shape, obj, t, True)
        c.ensure('copy', m is not obj and type(m) is type(obj))
        c.ensure_same('points of the copy', tuple(c.view(p) for p in m.points), tuple(points))
        c.ensure_same('source untouched', defining(c, obj), attributes)
        # changing one never changes the other
        for p in list(m.points) + list(k.points):
            p.x = p.x + 1
            p.y = p.y - 2
        c.ensure_same('source does not follow its copies', defining(c, obj), attributes)
        c.ensure_same('copy', tuple(c.view(p) for p in m.points), tuple((x + 1, y - 2) for x, y in points))
        for p in obj.points:
            p.x = p.x + 5
        c.ensure_same('copies do not follow the source', tuple(c.view(p) for p in k.points), tuple((x + 1, y - 2) for x, y in pts))
    check.__name__ = 'clone_of_' + kind
    check.__module__ = __name__
    return contract('T02', [P + 'PointPrimitive.clone', P + 'PointPrimitive.transform',
                            G + shape.path.split('.')[0] + ':' + shape.path.split('.')[1]])(check)

def defining(c, obj):
    out = [tuple(c.view(p) for p in obj.points), len(obj), obj.is_closed]
    for n in ('degree', 'order', 'uniform'):
        if hasattr(obj, n):
            out.append(getattr(obj, n))
    if hasattr(obj, 'knots'):
        out.append(tuple(obj.knots))
    return tuple(out)

for _k in SHAPES:
    history(_k)
    if _k != 'quadratic_length':
        cloning(_k)

# ------------------------------------------------------------------ reversed and converted shapes

def reversing(kind):
    shape = SHAPES[kind]
    def check(c):
        """The reverse has the points in the opposite order, the same type, and shares nothing with its source."""
        pts = [c.xy(c.vec(f'p{i}')) for i in range(shape.n)]
        regular(c, pts, shape)
        obj = c.call(shape.build, c, pts)
        c.ensure('reversible', obj.is_reversible is True)
        c.ensure_same('ends', (c.xy(obj.start_point), c.xy(obj.end_point)), (pts[0], pts[-1]))
        c.ensure_same('reversed points', tuple(c.xy(p) for p in obj.reversed_points), tuple(reversed(pts)))
        r = c.call(obj.reverse)
        c.ensure('type', type(r) is type(obj))
        c.ensure_same('points', tuple(c.xy(p) for p in r.points), tuple(reversed(pts)))
        for p in r.points:
            p.x = p.x + 1
        c.ensure_same('source kept', tuple(c.xy(p) for p in obj.points), tuple(pts))
        back = c.call(c.call(obj.reverse).reverse)
        c.ensure_same('twice', tuple(c.xy(p) for p in back.points), tuple(pts))
    check.__name__ = 'reverse_of_' + kind
    check.__module__ = __name__
    return contract('T02', [P + 'ReversiblePrimitiveMixin.reverse'])(check)

for _k in SHAPES:
    if _k != 'quadratic_length':
        reversing(_k)

@contract('T02', [P + 'PolygonMixin.to_polygon', P + 'PathMixin.to_path', G + 'Polyline:Polyline2D.to_path'])
def converted(c):
    """A polygon or a path made from a shape visits the same points and does not share them."""
    kind = c.choice('kind', 'triangle', 'polygon4', 'polyline')
    shape = SHAPES[kind]
    pts = [c.xy(c.vec(f'p{i}')) for i in range(shape.n)]
    regular(c, pts, shape)
    obj = c.call(shape.build, c, pts)
    path = c.call(obj.to_path)
    c.ensure_same('start', c.xy(path.p0), pts[0])
    stops = [c.xy(s.stop_point) for s in path]
    closing = [pts[0]] if obj.is_closed else []
    c.ensure_same('stops', tuple(stops), tuple(pts[1:] + closing))
    c.ensure('closed', bool(path.is_closed) == obj.is_closed)
    path.transform(c.cls(G + 'Transformation.AffineTransformation2D').Translation(c.V(1, 2)))
    c.ensure_same('kept', tuple(c.xy(p) for p in obj.points), tuple(pts))
    if kind == 'triangle':
        g = c.call(obj.to_polygon)
        c.ensure_same('vertices', tuple(c.xy(p) for p in g.points), tuple(pts))
        g.mirror()
        c.ensure_same('source kept', tuple(c.xy(p) for p in obj.points), tuple(pts))

@contract('T02', [G + 'Polygon:Polygon2D.recenter'])
def recentred(c):
    """Recentring a polygon is a translation of its points; nothing computed earlier survives."""
    shape = SHAPES['polygon3']
    pts = [c.xy(c.vec(f'p{i}')) for i in range(3)]
    regular(c, pts, shape)
    obj = c.call(shape.build, c, pts)
    q = c.V(1, 2)
    if not c.symbolic:
        for n, f in queries(c, shape, obj):
            answer(c, obj, f, q)
    c.call(obj.recenter)
    got = tuple(c.xy(p) for p in obj.points)
    gx, gy = [(pts[0][i] + pts[1][i] + pts[2][i])*c.q(1, 3) for i in (0, 1)]
    c.ensure_same('points', got, tuple((x - gx, y - gy) for x, y in pts))
    if not c.symbolic:
        fresh = shape.build(c, got)
        for n, f in queries(c, shape, obj):
            if n not in ('barycenter', 'is_point_inside'):
                c.ensure_same(f'query {n}', answer(c, obj, f, q), answer(c, fresh, f, q))

@contract('T02', [G + 'Polygon:RegularPolygon', G + 'Polygon:RegularPolygon.clone', G + 'Polygon:RegularPolygon._set_points'],
          bounded='number of edges: 3, 4, 6')
def regular_polygon(c):
    """A regular polygon that is cloned, moved, turned or scaled keeps being the regular polygon of its centre, radius, angle."""
    n = c.choice('n', 3, 4, 6)
    o = c.vec('o')
    r = c.real('r', pos=True)
    c.robust(r, tol=1e-3)
    g = c.angle('g')
    Reg = c.cls(G + 'Polygon.RegularPolygon')
    s = c.call(Reg, o, r, n, g)
    O = c.xy(o)
    def vertices(label, s, O, r, g, sense=1):
        c.ensure_same(label + ': centre', c.xy(s.center), O)
        c.ensure(label + ': radius', c.eq(s.radius, r))
        c.ensure(label + ': number of edges', s.number_of_edges == n and s.number_of_points == n)
        c.ensure(label + ': angle', c.and_(c.eq(c.cosd(s.angle), c.cosd(g)), c.eq(c.sind(s.angle), c.sind(g))))
        pts = [c.xy(p) for p in s.points]
        for i, (x, y) in enumerate(pts):
            a = g + sense*i*c.q(360, n)
            c.ensure(label + ': vertices', c.and_(c.eq(x, O[0] + r*c.cosd(a)), c.eq(y, O[1] + r*c.sind(a))))
    vertices('new', s, O, r, g)
    k = c.call(s.clone)
    c.ensure('type of the clone', type(k) is Reg)
    vertices('clone', k, O, r, g)
    how = c.choice('how', 'translation', 'scale', 'mirror', 'x_mirror', 'y_mirror')
    AT = c.cls(G + 'Transformation.AffineTransformation2D')
    if how == 'translation':
        d = c.vec('d')
        c.call(k.transform, AT.Translation(d))
        moved = ((O[0] + d.x, O[1] + d.y), r, g)
    elif how == 'scale':
        f = c.real('f', pos=True)
        c.robust(f, tol=1e-2)
        c.call(k.scale, f)
        moved = ((O[0]*f, O[1]*f), r*f, g)
    else:
        c.call(getattr(k, how))
        moved = dict(mirror=((-O[0], -O[1]), r, g + 180), x_mirror=((-O[0], O[1]), r, 180 - g, -1),
                     y_mirror=((O[0], -O[1]), r, -g, -1))[how]
    vertices(how, k, *moved)
    again = c.call(k.clone)
    vertices(how + ' and cloned', again, *moved)
    c.call(k.transform, AT.Translation(c.V(3, 4)))
    vertices(how + ', cloned, the first moved', again, *moved)
    vertices('source', s, O, r, g)
    c.ensure_same('circumcircle', (c.xy(s.circumcircle.center), s.circumcircle.radius), (O, r))

# ------------------------------------------------------------------ circles, ellipses, lines

SIMILARITIES = ('Identity', 'Translation', 'Rotation', 'Scale', 'Parity', 'XParity', 'YParity')

@contract('T02', [G + 'Conic:Circle2D.clone', G + 'Conic:Circle2D.apply_transformation', G + 'Mixin:AngularDomain.clone',
                  G + 'Mixin:AngularDomainMixin._clone_domain'])
def clone_of_circle(c):
    """A cloned circle has the centre, radius and domain of its source; neither follows the other."""
    o = c.vec('o')
    r = c.real('r', pos=True)
    a, b = c.angle('a'), c.angle('b')
    arc = c.bool('arc')
    D = c.cls(G + 'Conic.AngularDomain')(a, b) if arc else None
    k = c.cls(G + 'Conic.Circle2D')(o, r, D)
    def view(k):
        d = k.domain
        return (c.xy(k.center), k.radius, None if d is None else (d.start, d.stop), k.diameter, k.is_closed)
    old = view(k)
    m = c.call(k.clone)
    c.ensure('type', type(m) is type(k) and m is not k)
    c.ensure_same('clone', view(m), old)
    t, (p, q, tx, d, e, ty) = transformation(c, 't', True, SIMILARITIES)
    f = c.sqrt(p*p + d*d)
    c.assume(f > 0)
    ends = [c.xy(k.point_at_angle(i)) for i in (a, b)]
    if q*d > 0 or p*e < 0:
        ends = ends[::-1]
    c.call(m.apply_transformation, t)
    c.ensure_same('centre', c.xy(m.center), image(c, 'transform', (p, q, tx, d, e, ty), old[0]))
    c.ensure('radius', c.eq(m.radius, f*r))
    c.ensure('diameter', c.eq(m.diameter, 2*f*r))
    if arc:
        c.ensure('length of the arc kept', c.eq(m.domain.stop - m.domain.start, b - a))
        for i, j, l in zip((m.domain.start, m.domain.stop), ends, ('start', 'stop')):
            c.ensure_same(l, c.xy(m.point_at_angle(i)), image(c, 'transform', (p, q, tx, d, e, ty), j))
    c.ensure_same('source untouched', view(k), old)
    new = view(m)
    k.radius = r + 1
    k.center = (0, 0)
    if arc:
        k.domain.start = 7
    c.ensure_same('clone does not follow', view(m), new)
    m.center.x = m.center.x + 3
    c.ensure_same('source does not follow', c.xy(k.center), (0, 0))
    c.ensure('point defining the centre kept', c.and_(c.eq(o.x, old[0][0]), c.eq(o.y, old[0][1])))

@contract('T02', [G + 'Conic:Ellipse2D.clone', G + 'Conic:Ellipse2D.apply_transformation'])
def clone_of_ellipse(c):
    """A cloned ellipse has the centre, radii, angle and domain of its source; neither follows the other."""
    o = c.vec('o')
    ra, rb = c.real('ra', pos=True), c.real('rb', pos=True)
    g = c.angle('g')
    a, b = c.angle('a'), c.angle('b')
    arc = c.bool('arc')
    D = c.cls(G + 'Conic.AngularDomain')(a, b) if arc else None
    k = c.cls(G + 'Conic.Ellipse2D')(o, ra, rb, g, D)
    def view(k):
        d = k.domain
        return (c.xy(k.center), k.radius_x, k.radius_y, k.angle, None if d is None else (d.start, d.stop), k.is_closed,
                c.xy(k.major_vector), c.xy(k.minor_vector), c.view(k.bounding_box))
    old = view(k)
    m = c.call(k.clone)
    c.ensure('type', type(m) is type(k) and m is not k)
    c.ensure_same('clone', view(m), old)
    t, (p, q, tx, d, e, ty) = transformation(c, 't', True, SIMILARITIES)
    f = c.sqrt(p*p + d*d)
    c.assume(f > 0)
    ends = [c.xy(k.point_at_angle(i)) for i in (a, b)]
    if q*d > 0 or p*e < 0:
        ends = ends[::-1]
    def linear(v):
        return p*v[0] + q*v[1], d*v[0] + e*v[1]

    axes = [linear(c.xy(i)) for i in (k.major_vector, k.minor_vector)]
    c.call(m.apply_transformation, t)
    c.ensure_same('centre', c.xy(m.center), image(c, 'transform', (p, q, tx, d, e, ty), old[0]))
    c.ensure('radii', c.and_(c.eq(m.radius_x, f*ra), c.eq(m.radius_y, f*rb)))
    for l, v, w in zip(('major', 'minor'), (m.major_vector, m.minor_vector), axes):
        x, y = c.xy(v)
        c.ensure(l + ' axis', c.or_(c.and_(c.eq(x, w[0]), c.eq(y, w[1])), c.and_(c.eq(x, -w[0]), c.eq(y, -w[1]))))
    x, y = c.sqrt(axes[0][0]**2 + axes[1][0]**2), c.sqrt(axes[0][1]**2 + axes[1][1]**2)
    z = c.xy(m.center)
    c.ensure_same('box', c.view(m.bounding_box), (z[0]-x, z[0]+x, z[1]-y, z[1]+y))
    if arc:
        c.ensure('length of the arc kept', c.eq(m.domain.stop - m.domain.start, b - a))
        for i, j, l in zip((m.domain.start, m.domain.stop), ends, ('start', 'stop')):
            c.ensure_same(l, c.xy(m.point_at_angle(i)), image(c, 'transform', (p, q, tx, d, e, ty), j))
    c.ensure_same('source untouched', view(k), old)
    new = view(m)
    k.radius_x = ra + 1
    k.radius_y = rb + 1
    k.angle = g + 5
    k.center = (0, 0)
    if arc:
        k.domain.start = 7
    c.ensure_same('clone does not follow', view(m), new)

@contract('T02', [G + 'Line:Line2D.clone'])
def clone_of_line(c):
    """A cloned line has the point and direction of its source; neither follows the other."""
    p, v = c.vecs('p', 'v')
    l = c.cls(G + 'Line.Line2D')(p, v)
    old = (c.xy(l.p), c.xy(l.v))
    k = c.call(l.clone)
    c.ensure('type', type(k) is type(l) and k is not l)
    c.ensure_same('clone', (c.xy(k.p), c.xy(k.v)), old)
    k.p.x = k.p.x + 1
    k.v.y = k.v.y + 1
    c.ensure_same('source does not follow', (c.xy(l.p), c.xy(l.v)), old)
    l.p.y = l.p.y - 4
    l.v.x = l.v.x - 4
    c.ensure_same('clone does not follow', (c.xy(k.p), c.xy(k.v)), ((old[0][0] + 1, old[0][1]), (old[1][0], old[1][1] + 1)))

@contract('T02', [P + 'PointPrimitive.transform', P + 'PointPrimitive.apply_transformation', P + 'PrimitiveNP._set_points',
                  P + 'PrimitiveNP.points', G + 'Polygon:Polygon2D._set_points', G + 'Polyline:Polyline2D._set_points'])
def moved_any_number(c):
    """Any number of points: each is mapped by the transformation, in its place; what was remembered is forgotten."""
    kind = c.choice('kind', 'polyline', 'polygon', 'spline')
    how = c.choice('how', 'transform', 'rotate', 'scale', 'mirror', 'x_mirror', 'y_mirror')
    t, coef = transformation(c, 't', True, ('Identity', 'Translation', 'Rotation', 'Generic')) if how == 'transform' else (None, None)
    path = dict(polyline='Polyline.Polyline2D', polygon='Polygon.Polygon2D', spline='Spline.BSpline2D')[kind]
    build = lambda pts: c.cls(G + path)(pts, 2) if kind == 'spline' else c.cls(G + path)(*pts)
    if not c.symbolic:
        pts = [c.xy(c.vec(f'p{i}')) for i in range(c.int('n', 3, 60))]
        obj = build([c.V(*p) for p in pts])
        r = move(c, how, None, obj, t)
        c.ensure('in place', r is obj and len(obj) == len(pts))
        c.ensure_same('points', tuple(c.xy(p) for p in obj.points), tuple(image(c, how, coef, p) for p in pts))
        return
    from dv import loops
    if how == 'scale':
        c.assume(c.not_(c.and_(c.eq(c.real('sx'), 1), c.eq(c.real('sy'), 1))))   # see Identity
    obj = build([c.V(0, 0), c.V(1, 0), c.V(0, 1)])
    pts = loops.Seq(c.int('n', lo=3), lambda k: c.vec(f'p{len(pts.known)}'), 'points')
    obj._set_points(pts)
    if getattr(obj, '_points', None) is not pts:
        c.not_applicable('points held otherwise')
    with loops.unbounded(c, None, **loops.by_contract(c)):
        r = move(c, how, None, obj, t)
        c.ensure('in place', r is obj)
        now = obj._points
        if not isinstance(now, loops.Seq):
            c.not_applicable('points held otherwise')
        c.ensure('number of points', c.eq(now.n, pts.n))
        k = c.int('index', lo=0)
        c.assume(k < pts.n)
        p = c.xy(pts.at(k))
        c.ensure_same('point', c.xy(now.at(k)), image(c, how, coef, p))
        c.ensure_same('source of the point', c.xy(pts.at(k)), p)
