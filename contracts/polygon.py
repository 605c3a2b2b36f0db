"""Polygons (L01) and convex hulls (L02)."""

import math

from dv.contract import contract
from contracts.vector import dot, cross
from contracts.linear import sub

G = 'Patro.GeometryEngine.'
T = G + 'Polygon:Polygon2D.'

def polygon_class(c):
    """A polygon known to be simple (the precondition of the measures)."""
    Polygon2D = c.cls(G + 'Polygon.Polygon2D')
    class KnownSimple(Polygon2D):
        is_simple = property(lambda self: True)
    return KnownSimple

def star(c, n):
    """vertices of a random simple polygon (seen from an inner point), clockwise or not; untouched code only"""
    x0, y0 = c.real('x0'), c.real('y0')
    s = -1 if c.bool('clockwise') else 1
    start = c.real('start', lo=0, hi=1)
    out = []
    for i in range(n):
        a = s*2*math.pi*(i + .8*c.real(f'a{i}', lo=0, hi=1) + start)/n
        r = 1 + 6*c.real(f'r{i}', lo=0, hi=1)
        out.append((x0 + r*math.cos(a), y0 + r*math.sin(a)))
    k = c.int('first', 0, n - 1)
    return out[k:] + out[:k]

def spiral(c, n):
    """a strip wound around a point, clockwise or not: many edges cross a half line before they cancel; untouched code only"""
    x0, y0 = c.real('x0'), c.real('y0')
    s = -1 if c.bool('clockwise') else 1
    m = n // 2
    # less than .8 radians between two vertices of an arm: the turns keep apart
    start, turns = c.real('start', lo=0, hi=1), c.real('turns', lo=.5, hi=min(3, .8*(m - 1)/6.3))
    arm = [(s*2*math.pi*(start + turns*i/(m - 1)), 1 + 6*i/(m - 1)) for i in range(m)]
    width = 1.5/max(1, turns)
    out = [(x0 + r*math.cos(a), y0 + r*math.sin(a)) for a, r in arm]
    out += [(x0 + (r + width)*math.cos(a), y0 + (r + width)*math.sin(a)) for a, r in reversed(arm)]
    k = c.int('first', 0, len(out) - 1)
    return out[k:] + out[:k]

def vertices(c, n):
    if c.symbolic:
        return [c.xy(c.vec(f'p{i}')) for i in range(n)]
    return star(c, n)

def doubled(pts):
    """twice the signed area, by triangles around the first vertex"""
    o = pts[0]
    return [cross(sub(a, o), sub(b, o)) for a, b in zip(pts[1:], pts[2:])]

@contract('L01', [T + 'area', T + 'barycenter', T + 'is_clockwise', T + 'is_counterclockwise', T + '_compute_area_barycenter',
                  T + '_check_area', G + 'Primitive:ClosedPrimitiveMixin.closed_point_array'],
          bounded='number of vertices: 3 to 8')
def measures(c):
    """Area, orientation and centroid equal their integral definition (sum over the triangles around a vertex)."""
    n = c.choice('n', *range(3, 9))
    pts = vertices(c, n)
    w = doubled(pts)
    A2 = sum(w)
    c.assume(A2 != 0)
    c.robust(A2, tol=1e-2)
    s = c.call(polygon_class(c), *[c.V(*p) for p in pts])
    first = c.choice('first query', 'area', 'barycenter', 'is_clockwise', 'is_counterclockwise', 'is_convex', 'perimeter') if n < 5 else 'area'
    c.call(lambda: getattr(s, first))
    c.ensure('area', c.eq(c.call(lambda: s.area), abs(A2)*c.q(1, 2), order=2))
    c.ensure('clockwise', c.iff(bool(c.call(lambda: s.is_clockwise)), A2 < 0))
    c.ensure('counterclockwise', c.iff(bool(c.call(lambda: s.is_counterclockwise)), A2 > 0))
    g = c.xy(c.call(lambda: s.barycenter))
    for i, name in ((0, 'x'), (1, 'y')):
        moment = sum(k*(pts[0][i] + a[i] + b[i]) for k, a, b in zip(w, pts[1:], pts[2:]))
        c.ensure('centroid ' + name, c.eq(3*A2*g[i], moment, order=3))
    c.ensure_same('vertices kept', tuple(c.xy(p) for p in s.points), tuple(pts))
    c.ensure('the same area again', c.eq(s.area, abs(A2)*c.q(1, 2), order=2))

@contract('L01', [T + 'area', T + 'barycenter', T + 'perimeter', T + 'is_clockwise'], bounded='number of vertices: 3 to 6')
def start_vertex(c):
    """The measures do not depend on which vertex comes first; reversing the vertices only reverses the orientation."""
    n = c.choice('n', *range(3, 7))
    pts = vertices(c, n)
    A2 = sum(doubled(pts))
    c.assume(A2 != 0)
    c.robust(A2, tol=1e-2)
    cls = polygon_class(c)
    s = c.call(cls, *[c.V(*p) for p in pts])
    k = c.choice('k', *range(1, n))
    turned = pts[k:] + pts[:k]
    rev = c.bool('reversed') 
    if rev:
        turned = turned[::-1]
    r = c.call(cls, *[c.V(*p) for p in turned])
    c.ensure('area', c.eq(s.area, r.area, order=2))
    c.ensure_same('centroid', c.xy(s.barycenter), c.xy(r.barycenter))
    c.ensure('orientation', (bool(s.is_clockwise) == bool(r.is_clockwise)) != rev)
    c.ensure('perimeter', c.eq(s.perimeter, r.perimeter))

@contract('L01', [T + 'edges', T + 'number_of_edges', T + 'perimeter', G + 'Primitive:ClosedPrimitiveMixin.closed_pairwise_points',
                  G + 'Primitive:ClosedPrimitiveMixin.closed_points'], bounded='number of vertices: 3 to 10')
def edges(c):
    """The edges join the vertices cyclically, each once; the perimeter is the sum of their lengths."""
    n = c.choice('n', *range(3, 11))
    pts = vertices(c, n)
    s = c.call(c.cls(G + 'Polygon.Polygon2D'), *[c.V(*p) for p in pts])
    want = tuple(zip(pts, pts[1:] + pts[:1]))
    for again in ('', ' again'):
        e = list(c.call(lambda: s.edges))
        c.ensure('number' + again, len(e) == n and s.number_of_edges == n and s.number_of_points == n)
        c.ensure_same('edges' + again, tuple(tuple(c.xy(p) for p in x.points) for x in e), want)
    total = sum(c.sqrt(dot(sub(a, b), sub(a, b))) for a, b in want)
    c.ensure('perimeter', c.eq(c.call(lambda: s.perimeter), total))
    c.ensure_same('closed points', tuple(c.xy(p) for p in c.call(lambda: list(s.closed_points))), tuple(pts + pts[:1]))
    c.ensure('closed', s.is_closed is True)
    c.ensure_same('vertices kept', tuple(c.xy(p) for p in s.points), tuple(pts))

def side(a, b, q):
    return cross(sub(b, a), sub(q, a))

@contract('L01', [T + 'is_point_inside', T + '_winding_number_test', G + 'Segment:Segment2D.left_of', G + 'Segment:Segment2D.right_of',
                  G + 'Segment:Segment2D.side_of'])
def inside_triangle(c):
    """A polygon of three vertices winds around the convex combinations of its vertices, whatever the orientation."""
    pts = [c.xy(c.vec(f'p{i}')) for i in range(3)]
    q = c.vec('q')
    Q = c.xy(q)
    l = [side(a, b, Q) for a, b in zip(pts, pts[1:] + pts[:1])]
    c.robust(*l)
    c.assume(*[x != 0 for x in l])
    s = c.call(c.cls(G + 'Polygon.Polygon2D'), *[c.V(*p) for p in pts])
    r = bool(c.call(s.is_point_inside, q))
    y = [p[1] - Q[1] for p in pts]
    c.have('relation of the sides and the ordinates', c.eq(y[2]*l[0] + y[0]*l[1] + y[1]*l[2], 0, order=3))
    c.ensure('inside', c.iff(r, c.or_(c.and_(l[0] > 0, l[1] > 0, l[2] > 0), c.and_(l[0] < 0, l[1] < 0, l[2] < 0))))
    c.ensure_same('point kept', c.xy(q), Q)

def exactly(c, k, conds):
    """exactly k of the conditions hold"""
    if k < 0 or k > len(conds):
        return c.or_()
    if not conds:
        return c.and_()
    return c.or_(c.and_(conds[0], exactly(c, k - 1, conds[1:])), c.and_(c.not_(conds[0]), exactly(c, k, conds[1:])))

@contract('L01', [T + 'is_point_inside', T + '_winding_number_test'], deadline=400, bounded='number of vertices: 4 and 5')
def inside(c):
    """The winding of a polygon is the sum of the windings of the triangles around a vertex (either orientation)."""
    n = c.choice('n', 4, 5)
    pts = [c.xy(c.vec(f'p{i}')) for i in range(n)]
    q = c.vec('q')
    Q = c.xy(q)
    l = [side(a, b, Q) for a, b in zip(pts, pts[1:] + pts[:1])]
    m = [side(pts[0], pts[i], Q) for i in range(1, n)]         # from the first vertex to each other one
    c.robust(*l, *m)
    c.assume(*[x != 0 for x in l + m])
    s = c.call(c.cls(G + 'Polygon.Polygon2D'), *[c.V(*p) for p in pts])
    r = bool(c.call(s.is_point_inside, q))
    y = [p[1] - Q[1] for p in pts]
    up, down = [], []
    for i in range(1, n - 1):
        # triangle 0, i, i+1
        t = (m[i-1], l[i], -m[i])
        c.have('triangle', c.eq(y[i+1]*t[0] + y[0]*t[1] + y[i]*t[2], 0, order=3))
        up.append(c.and_(*[x > 0 for x in t]))
        down.append(c.and_(*[x < 0 for x in t]))
    null = c.or_(*[c.and_(exactly(c, k, up), exactly(c, k, down)) for k in range(n - 1)])
    c.ensure('inside', c.iff(r, c.not_(null)))

@contract('L01', [T + 'is_point_inside', T + 'is_simple', T + 'area', T + 'is_clockwise', T + 'barycenter'],
          bounded='runs on the untouched code, 3 to 12 vertices', concrete_only=True)
def inside_many(c):
    """Simple polygons of up to twelve vertices: measures and inside test against the angle swept around the point."""
    n = c.int('n', 3, 12)
    pts = star(c, n)
    s = c.call(c.cls(G + 'Polygon.Polygon2D'), *[c.V(*p) for p in pts])
    x0, y0 = c.inputs['x0'], c.inputs['y0']
    Q = (x0 + 9*c.real('u', lo=-1, hi=1), y0 + 9*c.real('v', lo=-1, hi=1))
    A2 = sum(doubled(pts))
    gaps = [cross(sub(a, (x0, y0)), sub(b, (x0, y0))) for a, b in zip(pts, pts[1:] + pts[:1])]
    c.assume(all(g > 1e-2 for g in gaps) or all(g < -1e-2 for g in gaps))
    c.ensure('simple', c.call(lambda: s.is_simple) is True)
    c.ensure('area', c.eq(c.call(lambda: s.area), abs(A2)/2, order=2))
    c.ensure('orientation', c.call(lambda: s.is_clockwise) == (A2 < 0))
    swept = 0
    for a, b in zip(pts, pts[1:] + pts[:1]):
        u, v = sub(a, Q), sub(b, Q)
        c.assume(abs(cross(u, v)) > 1e-3*(1 + abs(dot(u, v))))
        swept += math.atan2(cross(u, v), dot(u, v))
    c.ensure('inside', bool(c.call(s.is_point_inside, c.V(*Q))) == (abs(swept) > 3))

@contract('L01', [T + 'is_simple', T + '_test_is_simple'], bounded='runs on the untouched code, 4 to 8 vertices', concrete_only=True)
def simple(c):
    """A polygon is simple exactly when no two of its edges without a common vertex meet."""
    n = c.int('n', 4, 8)
    pts = [c.xy(c.vec(f'p{i}')) for i in range(n)]
    s = c.call(c.cls(G + 'Polygon.Polygon2D'), *[c.V(*p) for p in pts])
    e = list(zip(pts, pts[1:] + pts[:1]))
    for i in range(n):
        for j in range(n):
            c.assume(abs(cross(sub(pts[i], pts[j]), sub(pts[(i+1) % n], pts[i]))) > 1e-2 or j in (i, (i+1) % n))
    def meet(a, b):
        return side(*a, b[0])*side(*a, b[1]) < 0 and side(*b, a[0])*side(*b, a[1]) < 0
    crossing = any(meet(e[i], e[j]) for i in range(n) for j in range(i + 2, n) if (j + 1) % n != i)
    c.ensure('simple', bool(c.call(lambda: s.is_simple)) == (not crossing))

# ------------------------------------------------------------------ any number of vertices

def any_polygon(c):
    """a polygon of any number of vertices, known to be simple"""
    from dv import loops
    s = polygon_class(c)(c.V(0, 0), c.V(1, 0), c.V(0, 1))
    pts = loops.Seq(c.int('n', lo=3), lambda k: c.vec(f'v{len(pts.known)}'), 'vertices')
    s._set_points(pts)
    if getattr(s, '_points', None) is not pts:
        c.not_applicable('vertices held otherwise')
    return s, pts

def follow(pts, k):
    """the vertex after vertex k"""
    return pts.at(k + 1) if k + 1 < pts.n else pts.at(0)

def concrete_polygon(c):
    n = c.int('n', 3, 64)
    pts = spiral(c, n) if n > 20 and c.bool('spiral') else star(c, n)
    A2 = sum(doubled(pts))
    c.assume(A2 != 0)
    c.robust(A2, tol=1e-2)
    return c.call(polygon_class(c), *[c.V(*p) for p in pts]), pts

@contract('L01', [T + 'edges', T + 'number_of_edges', T + 'perimeter', G + 'Primitive:ClosedPrimitiveMixin.closed_pairwise_points',
                  G + 'Primitive:PrimitiveNP.number_of_points'])
def edges_any_number(c):
    """Any number of vertices: the edges join the vertices cyclically, each once; the perimeter is the sum of their lengths."""
    if not c.symbolic:
        s, pts = concrete_polygon(c)
        want = list(zip(pts, pts[1:] + pts[:1]))
        c.ensure_same('edges', tuple(tuple(c.xy(p) for p in x.points) for x in s.edges), tuple(want))
        c.ensure('perimeter', c.eq(s.perimeter, sum(c.sqrt(dot(sub(a, b), sub(a, b))) for a, b in want)))
        return
    from dv import loops
    s, pts = any_polygon(c)
    with loops.unbounded(c, None, **loops.by_contract(c)):
        if c.bool('perimeter'):
            def length(k):
                d = sub(c.xy(pts.at(k)), c.xy(follow(pts, k)))
                return c.sqrt(dot(d, d))
            p = c.call(lambda: s.perimeter)
            c.ensure('perimeter', c.eq(p, loops.matching_total(c, pts.n, length)))
            return
        # the edges are kept: asked twice
        c.call(lambda: s.edges) if c.bool('asked before') else None
        e = c.call(lambda: s.edges)
        if not isinstance(e, loops.Seq):
            c.not_applicable('edges built otherwise')
        c.ensure('number of edges', c.and_(c.eq(e.n, pts.n), c.eq(s.number_of_edges, pts.n), c.eq(s.number_of_points, pts.n)))
        k = c.int('edge', lo=0)
        c.assume(k < pts.n)
        a, b = e.at(k).points
        c.ensure_same('edge', c.xy(a) + c.xy(b), c.xy(pts.at(k)) + c.xy(follow(pts, k)))

@contract('L01', [T + 'area', T + 'barycenter', T + 'is_clockwise', T + 'is_counterclockwise', T + '_compute_area_barycenter',
                  T + '_check_area', G + 'Primitive:ClosedPrimitiveMixin.closed_point_array', G + 'Primitive:ClosedPrimitiveMixin.closed_points'])
def measures_any_number(c):
    """Any number of vertices: area, orientation and centroid are the sums that define them."""
    first = c.choice('first query', 'area', 'barycenter', 'is_clockwise', 'is_counterclockwise')
    if not c.symbolic:
        s, pts = concrete_polygon(c)
        pairs = list(zip(pts, pts[1:] + pts[:1]))
        total = sum(cross(a, b) for a, b in pairs)
        moment = [sum((a[i] + b[i])*cross(a, b) for a, b in pairs) for i in (0, 1)]
        c.robust(total, tol=1e-2)
    else:
        from dv import loops
        s, pts = any_polygon(c)
        def x(k):
            return cross(c.xy(pts.at(k)), c.xy(follow(pts, k)))
        with loops.unbounded(c, None, **loops.by_contract(c)):
            c.call(lambda: getattr(s, first))
            total = loops.matching_total(c, pts.n, x)
            moment = None
            # a polygon with a null area has no inner point: precondition
            c.assume(c.or_(total > 0, total < 0))
            moment = [loops.matching_total(c, pts.n, lambda k: (c.xy(pts.at(k))[i] + c.xy(follow(pts, k))[i])*x(k)) for i in (0, 1)]
    c.call(lambda: getattr(s, first))
    c.ensure('area', c.eq(c.call(lambda: s.area)*2, abs(total), order=2))
    c.ensure('clockwise', c.iff(bool(c.call(lambda: s.is_clockwise)), total < 0))
    c.ensure('counterclockwise', c.iff(bool(c.call(lambda: s.is_counterclockwise)), total > 0))
    g = c.xy(c.call(lambda: s.barycenter))
    for i, name in ((0, 'x'), (1, 'y')):
        c.ensure('centroid ' + name, c.eq(3*total*g[i], moment[i], order=3))

def crossing(c, a, b, q):
    """what an edge adds to the winding around q: 1 upwards with q on its left, -1 downwards with q on its right"""
    w = side(a, b, q)
    if a[1] <= q[1]:
        return 1 if b[1] > q[1] and w > 0 else 0
    return -1 if b[1] <= q[1] and w < 0 else 0

@contract('L01', [T + 'is_point_inside', T + '_winding_number_test', G + 'Segment:Segment2D.left_of', G + 'Segment:Segment2D.right_of'], deadline=60)
def inside_any_number(c):
    """Any number of vertices: a point is inside when the crossings of the edges do not cancel (invariant of the loop over the edges)."""
    q = c.vec('q')
    Q = c.xy(q)
    if not c.symbolic:
        s, pts = concrete_polygon(c)
        pairs = list(zip(pts, pts[1:] + pts[:1]))
        c.robust(*[side(a, b, Q) for a, b in pairs], zero=True)
        c.ensure('inside', bool(c.call(s.is_point_inside, q)) == (sum(crossing(c, a, b, Q) for a, b in pairs) != 0))
        return
    from dv import loops
    s, pts = any_polygon(c)
    def step(loop, before, after):
        a, b = c.xy(pts.at(loop.k)), c.xy(follow(pts, loop.k))
        c.ensure('an edge adds its crossing', c.eq(after, before + crossing(c, a, b, Q)))
    def ready(loop):
        # the point lies on no edge: precondition
        c.assume(side(c.xy(pts.at(loop.k)), c.xy(follow(pts, loop.k)), Q) != 0)
    used = []
    def invariant(loop, state):
        used.append(loops.Counter(c, step, ready=ready))
        return used[-1]
    with loops.unbounded(c, invariant, **loops.by_contract(c)):
        r = bool(c.call(s.is_point_inside, q))
    if len(used) != 1:
        c.not_applicable('not one loop over the edges')
    c.ensure('one step for each edge', c.eq(used[0].stop, pts.n))
    c.ensure('inside', c.iff(r, c.or_(used[0].value > 0, used[0].value < 0)))
    c.ensure_same('point kept', c.xy(q), Q)

@contract('L01', [T + '_winding_number_test'])
def crossing_lemma(c):
    """The crossings of the edges of a polygon add up to the triangles around its first vertex: an edge run back cancels, a
    triangle counts one when the point is in it, with the sign of its orientation."""
    a, b, d, q = (c.xy(c.vec(n)) for n in 'abdq')
    l = [side(a, b, q), side(b, d, q), side(d, a, q)]
    c.robust(*l)
    c.assume(*[x != 0 for x in l])
    y = [p[1] - q[1] for p in (a, b, d)]
    c.have('relation of the sides and the ordinates', c.eq(y[2]*l[0] + y[0]*l[1] + y[1]*l[2], 0, order=3))
    c.have('the opposite side', c.eq(side(b, a, q), -l[0], order=2))
    c.ensure('run back', crossing(c, b, a, q) == -crossing(c, a, b, q))
    n = crossing(c, a, b, q) + crossing(c, b, d, q) + crossing(c, d, a, q)
    c.ensure('triangle', n in (-1, 0, 1))
    c.ensure('counter-clockwise triangle', c.iff(n == 1, c.and_(*[x > 0 for x in l])))
    c.ensure('clockwise triangle', c.iff(n == -1, c.and_(*[x < 0 for x in l])))

@contract('L01', [T + 'point_barycenter', G + 'Primitive:PrimitiveNP.iter_from_second_point'])
def mean_any_number(c):
    """Any number of vertices: the mean of the vertices."""
    if not c.symbolic:
        s, pts = concrete_polygon(c)
        c.ensure_same('mean', c.xy(c.call(lambda: s.point_barycenter)), tuple(sum(p[i] for p in pts)/len(pts) for i in (0, 1)))
        c.ensure_same('vertices kept', tuple(c.xy(p) for p in s.points), tuple(pts))
        return
    from dv import loops
    s, pts = any_polygon(c)
    class Sum(loops.Independent):
        def entry(self, loop, state):
            held = {k: v for k, v in state.items() if v is not loops.UNSET}
            if len(held) != 1 or not isinstance(next(iter(held.values())), c.V):
                loops.unsupported('not one vector carried from step to step')
            self.name, v = next(iter(held.items()))
            self.first = c.xy(v)
            # the vertices before the first step
            self.before = loop.start + (pts.n - loop.n)
            none = c.and_(c.eq(self.before, 0), c.same(self.first, (0, 0)))
            loops.established(c, 'invariant at entry', c.or_(none, c.and_(c.eq(self.before, 1), c.same(self.first, c.xy(pts.at(0))))))
        def state(self, loop, state, k):
            self.value = c.vec('partial sum')
            self.old = c.xy(self.value)
            self.stop = k
            return {n: self.value if n == self.name else loops.UNSET for n in state}
        def step(self, loop, before, after):
            p = c.xy(pts.at(loop.k + pts.n - loop.n))
            c.ensure_same('a vertex is added', c.xy(after[self.name]), (self.old[0] + p[0], self.old[1] + p[1]))
    used = []
    def invariant(loop, state):
        used.append(Sum(c))
        return used[-1]
    with loops.unbounded(c, invariant, **loops.by_contract(c)):
        r = c.xy(c.call(lambda: s.point_barycenter))
    if len(used) != 1:
        c.not_applicable('not one loop over the vertices')
    c.ensure_same('mean', (r[0]*pts.n, r[1]*pts.n), used[0].old)

# ------------------------------------------------------------------ convex hull

def is_hull(c, pts, hull, label='hull'):
    """strictly convex, counter-clockwise, made of input points, none left outside"""
    exact = c.symbolic or all(float(8*x).is_integer() for p in pts for x in p)
    for h in hull:
        c.ensure(label + ': vertices are input points', c.or_(*[c.and_(c.eq(h[0], p[0]), c.eq(h[1], p[1])) for p in pts]))
    k = len(hull)
    if k >= 3:
        for i in range(k):
            a, b, d = hull[i - 2], hull[i - 1], hull[i]
            w = cross(sub(b, a), sub(d, b))
            c.ensure(label + ': no vertex can be dropped', w > 0 if exact else c.gt(w, 0, order=2))
            for p in pts:
                w = side(a, b, p)
                c.ensure(label + ': contains every point', w >= 0 if exact else c.ge(w, 0, order=2))
    else:
        # all points are aligned: the two ends, or the only point
        c.ensure(label + ': not empty', k >= 1)
        a, b = hull[0], hull[-1]
        if k == 2:
            c.ensure(label + ': distinct ends', c.or_(c.not_(c.eq(a[0], b[0])), c.not_(c.eq(a[1], b[1]))))
        for p in pts:
            c.ensure(label + ': on the segment', c.and_(c.eq(side(a, b, p), 0, order=2),
                                                        c.le(dot(sub(p, a), sub(p, b)), 0, order=2)))

HULL = [G + 'Polygon:convex_hull', G + 'Polygon:sort_point_for_graham_scan', G + 'Polygon:ccw', G + 'Polygon:is_three_point_ccw']

def hull_of(c, n):
    pts = c.vecs(*[f'p{i}' for i in range(n)])
    old = [c.xy(p) for p in pts]
    m = c.mod(G + 'Polygon')
    as_polygon = c.bool('as polygon')
    arg = list(pts)
    r = c.call(m.convex_hull, arg, as_polygon=as_polygon)
    if isinstance(r, c.cls(G + 'Polygon.Polygon2D')):
        c.ensure('polygon', as_polygon is True)
        hull = [c.xy(p) for p in r.points]
        c.ensure('at least three vertices', len(hull) >= 3)
        c.ensure('convex, counter-clockwise', r.is_convex is True and r.is_clockwise is False)
    else:
        hull = [c.xy(p) for p in r]
        c.ensure('list', not as_polygon or len(hull) < 3)
    is_hull(c, old, hull)
    c.ensure('list kept', len(arg) == n and all(x is y for x, y in zip(arg, pts)))
    c.ensure_same('points kept', tuple(c.xy(p) for p in pts), tuple(old))
    if hasattr(r, 'points'):
        for p in r.points:
            p.x = p.x + 1
        c.ensure_same('points not shared', tuple(c.xy(p) for p in pts), tuple(old))

@contract('L02', HULL, bounded='1 to 3 points')
def hull_small(c):
    """The hull of one, two or three points, repeated and aligned points included, in every order."""
    hull_of(c, c.choice('n', 1, 2, 3))

def is_sorted(c, label, pts, out):
    """contract of the sort: the lowest, then leftmost point, then at most one point of each direction, the farthest, by
    increasing angle"""
    o = out[0]
    for p in pts:
        c.ensure(label + ': starts with the lowest point', c.or_(p[1] > o[1], c.and_(p[1] == o[1], p[0] >= o[0])))
    for i in range(1, len(out)):
        d = sub(out[i], o)
        c.ensure(label + ': above the first point', c.or_(d[1] > 0, c.and_(d[1] == 0, d[0] > 0)))
        for k in range(i + 1, len(out)):
            c.ensure(label + ': increasing angle', cross(d, sub(out[k], o)) > 0)
    for p in pts:
        d = sub(p, o)
        c.ensure(label + ': every point lies between the first point and a point kept',
                 c.or_(c.and_(d[0] == 0, d[1] == 0),
                       *[c.and_(cross(d, sub(q, o)) == 0, dot(d, sub(q, o)) > 0, dot(d, d) <= dot(sub(q, o), sub(q, o))) for q in out[1:]]))
    for q in out:
        c.ensure(label + ': input points', c.or_(*[c.and_(q[0] == p[0], q[1] == p[1]) for p in pts]))

def sort_of(c, n):
    pts = c.vecs(*[f'p{i}' for i in range(n)])
    old = [c.xy(p) for p in pts]
    c.assume(c.symbolic or all(float(8*x).is_integer() for p in old for x in p))
    arg = list(pts)
    out = c.call(c.mod(G + 'Polygon').sort_point_for_graham_scan, arg)
    is_sorted(c, 'sort', old, [c.xy(p) for p in out])
    c.ensure('list kept', len(arg) == n and all(x is y for x, y in zip(arg, pts)))
    c.ensure_same('points kept', tuple(c.xy(p) for p in pts), tuple(old))

@contract('L02', [G + 'Polygon:sort_point_for_graham_scan'], bounded='1 to 3 points')
def graham_sort(c):
    """Points sorted by angle around the lowest one, repeated and aligned points included, in every order."""
    sort_of(c, c.choice('n', 1, 2, 3))

@contract('L02', [G + 'Polygon:sort_point_for_graham_scan'], bounded='runs on the untouched code, 4 to 12 points', concrete_only=True)
def graham_sort_many(c):
    sort_of(c, c.int('n', 4, 12))

@contract('L02', [G + 'Polygon:convex_hull', G + 'Polygon:ccw', G + 'Polygon:is_three_point_ccw'], deadline=600,
          bounded='4 to 7 points kept by the sort')
def graham_scan(c):
    """The hull of points the sort has ordered (the sort stands by its contract)."""
    m = c.mod(G + 'Polygon')
    n = c.choice('n', 4, 5, 6, 7)
    pts = c.vecs(*[f'p{i}' for i in range(n)])
    old = [c.xy(p) for p in pts]
    if not c.symbolic:
        c.assume(all(float(8*x).is_integer() for p in old for x in p))
        out = m.sort_point_for_graham_scan(pts)
    else:
        # contract of the sort, see is_sorted
        out = list(pts)
        for i in range(1, n):
            d = sub(old[i], old[0])
            c.assume(c.or_(d[1] > 0, c.and_(d[1] == 0, d[0] > 0)))
            for k in range(i + 1, n):
                c.assume(cross(d, sub(old[k], old[0])) > 0)
    kept = [c.xy(p) for p in out]
    sort = m.sort_point_for_graham_scan
    m.sort_point_for_graham_scan = lambda points: list(out)
    try:
        r = c.call(m.convex_hull, list(pts), as_polygon=False)
    finally:
        m.sort_point_for_graham_scan = sort
    hull = [c.xy(p) for p in r]
    is_hull(c, kept, hull)
    c.ensure_same('points kept', tuple(c.xy(p) for p in pts), tuple(old))

@contract('L02', HULL, bounded='runs on the untouched code, 5 to 16 points', concrete_only=True)
def hull_many(c):
    """The hull of up to sixteen points, whatever their order, repeated and aligned points included."""
    hull_of(c, c.int('n', 5, 16))

@contract('L02', HULL, bounded='runs on the untouched code, 3 to 9 points', concrete_only=True)
def hull_order(c):
    """The hull has the same vertices for every order of the input; any iterable is accepted."""
    n = c.int('n', 3, 9)
    pts = c.vecs(*[f'p{i}' for i in range(n)])
    c.assume(all(float(8*x).is_integer() for p in pts for x in c.xy(p)))
    order = sorted(range(n), key=lambda i: c.real(f'o{i}', lo=0, hi=1))
    m = c.mod(G + 'Polygon')
    a = c.call(m.convex_hull, list(pts), as_polygon=False)
    b = c.call(m.convex_hull, (pts[i] for i in order), as_polygon=False)
    c.ensure_same('vertices', tuple(c.xy(p) for p in a), tuple(c.xy(p) for p in b))

@contract('L02', [T + 'convex_hull'], bounded='runs on the untouched code, 3 to 9 vertices', concrete_only=True)
def hull_of_polygon(c):
    """The hull of a polygon encloses its vertices and leaves it unchanged, whatever was asked before."""
    n = c.int('n', 3, 9)
    pts = star(c, n)
    s = c.call(c.cls(G + 'Polygon.Polygon2D'), *[c.V(*p) for p in pts])
    if c.bool('convexity asked'):
        c.call(lambda: s.is_convex)
    h = c.call(s.convex_hull)
    c.ensure_same('kept', tuple(c.xy(p) for p in s.points), tuple(pts))
    hull = [c.xy(p) for p in (h.points if hasattr(h, 'points') else h)]
    if len(hull) >= 3 and sum(doubled(hull)) < 0:
        hull = hull[::-1]
    is_hull(c, pts, hull)
