"""Bounding boxes of primitives defined by points, and of collections (G04)."""

from dv.contract import contract

G = 'Patro.GeometryEngine.'
P = G + 'Primitive:'

def touch(c, label, box, pts):
    """smallest box: every point inside and each side reached by a point"""
    xi, xs, yi, ys = c.view(box)
    for x, y in pts:
        c.ensure(label + ': encloses', c.and_(c.le(xi, x), c.le(x, xs), c.le(yi, y), c.le(y, ys)))
    c.ensure(label + ': left side touched', c.or_(*[c.eq(xi, p[0]) for p in pts]))
    c.ensure(label + ': right side touched', c.or_(*[c.eq(xs, p[0]) for p in pts]))
    c.ensure(label + ': lower side touched', c.or_(*[c.eq(yi, p[1]) for p in pts]))
    c.ensure(label + ': upper side touched', c.or_(*[c.eq(ys, p[1]) for p in pts]))

def disturb(box):
    """what a caller may do with a box that was handed out"""
    box.enlarge(5)
    box.x.inf = box.x.inf - 1
    box.y.sup = box.y.sup + 2

@contract('G04', [G + 'BoundingBox:bounding_box_from_points', G + 'Vector:Vector2DFloatBase.bounding_box'],
          bounded='number of points: 1 to 12')
def box_of_points(c):
    """The box of a list of points is the smallest box enclosing them; any iterable, any order; fresh."""
    m = c.mod(G + 'BoundingBox')
    c.single_extrema()
    n = c.choice('n', *(range(1, 13)))
    pts = [c.vec(f'p{i}') for i in range(n)]
    kind = c.choice('kind', 'list', 'tuple', 'generator') if n < 4 else 'list'
    frame = c.frame(*pts)
    arg = {'list': list, 'tuple': tuple, 'generator': iter}[kind](pts)
    box = c.call(m.bounding_box_from_points, arg)
    touch(c, 'box', box, [c.xy(p) for p in pts])
    frame('points kept')
    disturb(box)
    frame('points kept after use of the box')

@contract('G04', [G + 'BoundingBox:bounding_box_from_points'])
def box_step(c):
    """Induction step: folding one more point into the box of any prefix gives the union with the point."""
    m = c.mod(G + 'BoundingBox')
    c.single_extrema()
    I = c.cls('IntervalArithmetic.Interval2D')
    x0, x1, y0, y1 = c.reals('x0', 'x1', 'y0', 'y1')
    c.assume(x0 <= x1, y0 <= y1)
    class Prefix:
        """stands for the points seen so far"""
        @property
        def bounding_box(self):
            return I((x0, x1), (y0, y1))
    q = c.vec('q')
    qx, qy = c.xy(q)
    box = c.call(m.bounding_box_from_points, [Prefix(), q])
    a, b, d, e = c.view(box)
    def low(label, r, u, v):
        c.ensure(label, c.and_(c.le(r, u), c.le(r, v), c.or_(c.eq(r, u), c.eq(r, v))))
    def high(label, r, u, v):
        c.ensure(label, c.and_(c.le(u, r), c.le(v, r), c.or_(c.eq(r, u), c.eq(r, v))))
    low('left', a, x0, qx)
    high('right', b, x1, qx)
    low('lower', d, y0, qy)
    high('upper', e, y1, qy)

FIXED = (('Segment.Segment2D', 2), ('Rectangle.Rectangle2D', 2), ('Triangle.Triangle2D', 3),
         ('Bezier.QuadraticBezier2D', 3), ('Bezier.CubicBezier2D', 4),
         ('Spline.QuadraticUniformSpline2D', 3), ('Spline.CubicUniformSpline2D', 4))

def fixed(name):
    cls, n = next(x for x in FIXED if x[0].endswith('.' + name))
    def check(c):
        """The box of the primitive is the smallest box of its defining points, computed anew at each request."""
        c.single_extrema()
        pts = [c.vec(f'p{i}') for i in range(n)]
        if name == 'Triangle2D':
            (x0, y0), (x1, y1), (x2, y2) = map(c.xy, pts)
            d = (x1 - x0)*(y2 - y0) - (x2 - x0)*(y1 - y0)
            c.assume(abs(d) > c.q(1, 10**6))
        s = c.call(c.cls(G + cls), *pts)
        old = c.view(tuple(s.points))
        box = c.call(lambda: s.bounding_box)
        touch(c, 'box', box, list(old))
        first = c.view(box)
        again = c.call(lambda: s.bounding_box)
        c.ensure_same('the same box again', c.view(again), first)
        disturb(box)
        c.ensure_same('points kept', c.view(tuple(s.points)), old)
        c.ensure_same('box handed out earlier is not shared', c.view(again), first)
        c.ensure_same('box after use of an earlier box', c.view(c.call(lambda: s.bounding_box)), first)
        dx, dy = c.reals('dx', 'dy')
        T = c.cls(G + 'Transformation.AffineTransformation2D')
        s.transform(T.Translation(c.V(dx, dy)))
        moved = c.call(lambda: s.bounding_box)
        touch(c, 'box of the moved primitive', moved, [(p[0] + dx, p[1] + dy) for p in old])
    check.__name__ = 'box_of_' + name
    check.__module__ = __name__
    return contract('G04', [P + 'PointPrimitive.bounding_box'])(check)

for _cls, _n in FIXED:
    fixed(_cls.split('.')[-1])

@contract('G04', [P + 'PointPrimitive.bounding_box', P + 'PrimitiveNP.points'],
          bounded='number of points: 1 to 12')
def box_of_many(c):
    """Polylines, polygons and splines: box of the defining points, whatever their number."""
    c.single_extrema()
    kind = c.choice('kind', 'polyline', 'polygon', 'spline')
    low = dict(polyline=2, polygon=3, spline=3)[kind]
    n = c.choice('n', *(range(low, 11)))
    pts = [c.vec(f'p{i}') for i in range(n)]
    if kind == 'polyline':
        s = c.cls(G + 'Polyline.Polyline2D')(*pts)
    elif kind == 'polygon':
        s = c.cls(G + 'Polygon.Polygon2D')(*pts)
    else:
        s = c.cls(G + 'Spline.BSpline2D')(pts, 2)
    old = c.view(tuple(s.points))
    box = c.call(lambda: s.bounding_box)
    touch(c, 'box', box, [c.xy(p) for p in pts])
    first = c.view(box)
    disturb(box)
    c.ensure_same('points kept', c.view(tuple(s.points)), old)
    c.ensure_same('box after use of an earlier box', c.view(c.call(lambda: s.bounding_box)), first)
    if c.symbolic and n > 5:
        return
    for p in s.points:   # live points
        p.x = p.x + 3
    moved = c.call(lambda: s.bounding_box)
    touch(c, 'box of the moved primitive', moved, [(p[0] + 3, p[1]) for p in old])

# ------------------------------------------------------------------ any number

def fold_box(c, sides, n, run, label='box'):
    """run() folds the boxes of n elements: the result is the smallest box that encloses them"""
    from dv import loops
    I = c.cls('IntervalArithmetic.Interval2D')
    used = []
    def invariant(loop, state):
        if used:
            loops.unsupported('more than one loop')
        used.append(loops.Box(c, sides, n, lambda a, b, d, e: I((a, b), (d, e)), c.view))
        return used[-1]
    with loops.unbounded(c, invariant, **loops.by_contract(c)):
        box = c.call(run)
    if len(used) != 1 or used[0].known is None:
        c.not_applicable('not one loop over the elements')
    inv = used[0]
    c.ensure('every element folded', c.eq(inv.m, n))
    b = c.view(box)
    # the invariant after the last element is what is promised
    for i, side in enumerate(('left', 'right', 'lower', 'upper')):
        c.ensure(f'{label}: {side} side', c.eq(b[i], inv.known[i]))

def sides_of_points(c, pts):
    def sides(k):
        x, y = c.xy(pts.at(k))
        return x, x, y, y
    return sides

@contract('G04', [G + 'BoundingBox:bounding_box_from_points', P + 'PointPrimitive.bounding_box', P + 'PrimitiveNP.points'])
def box_any_number(c):
    """Any number of points: the box is the smallest that encloses them (invariant of the loop over the points)."""
    kind = c.choice('kind', 'points', 'iterator', 'polyline', 'polygon', 'spline')
    c.single_extrema()
    if not c.symbolic:
        n = c.int('n', 3, 80)
        pts = [c.vec(f'p{i}') for i in range(n)]
    else:
        from dv import loops
        n = c.int('n', lo=3)
        pts = loops.Seq(n, lambda k: c.vec(f'p{len(pts.known)}'), 'points')
    m = c.mod(G + 'BoundingBox')
    if kind in ('points', 'iterator'):
        run = lambda: m.bounding_box_from_points(pts if kind == 'points' else loops.Iter(pts) if c.symbolic else iter(pts))
    else:
        abc = [c.V(0, 0), c.V(1, 0), c.V(0, 1)]
        if kind == 'spline':
            s = c.cls(G + 'Spline.BSpline2D')(abc, 2)
        else:
            s = c.cls(G + dict(polyline='Polyline.Polyline2D', polygon='Polygon.Polygon2D')[kind])(*abc)
        s._set_points(pts)
        if getattr(s, '_points', None) is not pts:
            c.not_applicable('points held otherwise')
        run = lambda: s.bounding_box
    if not c.symbolic:
        touch(c, 'box', c.call(run), [c.xy(p) for p in pts])
        return
    fold_box(c, sides_of_points(c, pts), n, run)

@contract('G04', [G + 'Path:Path2D.bounding_box'])
def box_of_any_path(c):
    """A path of any number of parts: the smallest box of the boxes of its parts (invariant of the loop over the parts)."""
    I = c.cls('IntervalArithmetic.Interval2D')
    path = c.cls(G + 'Path.Path2D')(c.V(0, 0))
    if not isinstance(getattr(path, '_parts', None), list):
        c.not_applicable('parts held otherwise')
    class Part:
        """stands for a part whose geometry has any box"""
        def __init__(self, i):
            x, y = sorted(c.reals(f'l{i}', f'r{i}')), sorted(c.reals(f'b{i}', f't{i}')) if not c.symbolic else None
            x, y = c.reals(f'l{i}', f'r{i}'), c.reals(f'b{i}', f't{i}')
            if c.symbolic:
                c.assume(x[0] <= x[1], y[0] <= y[1])
            else:
                x, y = sorted(x), sorted(y)
            self.sides = (*x, *y)
        @property
        def geometry(self):
            return self
        @property
        def bounding_box(self):
            a, b, d, e = self.sides
            return I((a, b), (d, e))
    c.single_extrema()
    if not c.symbolic:
        parts = [Part(i) for i in range(c.int('n', 1, 80))]
        path._parts = parts
        b = c.view(c.call(lambda: path.bounding_box))
        for i in range(4):
            c.ensure('side', c.eq(b[i], (min if i in (0, 2) else max)(p.sides[i] for p in parts)))
        return
    from dv import loops
    n = c.int('n', lo=1)
    parts = loops.Seq(n, lambda k: Part(len(parts.known)), 'parts')
    path._parts = parts
    fold_box(c, lambda k: parts.at(k).sides, n, lambda: path.bounding_box)

@contract('G04', [G + 'Line:Line2D', P + 'Primitive.bounding_box'])
def box_of_infinite(c):
    """An infinite primitive has no box."""
    v = c.vec('v')
    l = c.cls(G + 'Line.Line2D')(c.vec('p'), v)
    c.ensure('no box', c.call(lambda: l.bounding_box) is None)

@contract('G04', [G + 'Path:Path2D.bounding_box', G + 'Path:PathPart.bounding_box'])
def box_of_path(c):
    """The box of a path is the smallest box of the boxes of its parts."""
    Path = c.cls(G + 'Path.Path2D')
    c.single_extrema()
    kind = c.choice('kind', 'one', 'linear', 'quadratic', 'cubic')
    p0, p1, p2, p3 = c.vecs('p0', 'p1', 'p2', 'p3')
    path = Path(p0)
    pts = [c.xy(p0), c.xy(p1)]
    path.line_to(p1, absolute=True)
    if kind == 'linear':
        path.line_to(p2, absolute=True)
        pts += [c.xy(p2)]
    elif kind == 'quadratic':
        path.quadratic_to(p2, p3, absolute=True)
        pts += [c.xy(p2), c.xy(p3)]
    elif kind == 'cubic':
        p4 = c.vec('p4') if not c.symbolic else p0
        path.cubic_to(p2, p3, p4, absolute=True)
        pts += [c.xy(p2), c.xy(p3), c.xy(p4)]
    box = c.call(lambda: path.bounding_box)
    touch(c, 'box', box, pts)
    first = c.view(box)
    disturb(box)
    c.ensure_same('box after use of an earlier box', c.view(c.call(lambda: path.bounding_box)), first)
    c.ensure_same('start kept', c.xy(path.p0), pts[0])
