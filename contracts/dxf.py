"""DXF bulge arcs (X01)."""

from dv.contract import contract
from contracts.vector import dot, cross, nonnull
from contracts.linear import sub

F = 'Patro.FileFormat.Dxf.Polyline'
P = F + ':Polyline.'
V = F + ':PolylineVertex.'

def polyline(c, bulges, closed=False):
    pts = [c.vec(f'p{i}') for i in range(len(bulges))]
    k = c.cls(F + '.Polyline')(closed=closed) if closed else c.cls(F + '.Polyline')()
    for p, b in zip(pts, bulges):
        if type(b) is int and b == 0:
            k.add(p)    # no bulge
        else:
            k.add(p, b)
    return k, [c.xy(p) for p in pts]

def bulge(c, name='b'):
    b = c.real(name, sample=(-20, 20))
    c.assume(b != 0)
    c.robust(b, tol=2e-2)
    return b

def distinct(c, p, q):
    c.assume(nonnull(c, sub(q, p)))
    c.robust(c.sqrt(dot(sub(q, p), sub(q, p))), tol=1e-2)

def centre_of(P, Q, b, c):
    """spec: the centre lies on the bisector at half the chord times the cotangent of half the angle, to the left for small bulges"""
    d = sub(Q, P)
    w = (1/b - b)/4
    return ((P[0] + Q[0])/2 - d[1]*w, (P[1] + Q[1])/2 + d[0]*w)

def apex_of(P, Q, b):
    """spec: middle of the arc, right of the chord for a positive bulge"""
    d = sub(Q, P)
    return ((P[0] + Q[0])/2 + d[1]*b/2, (P[1] + Q[1])/2 - d[0]*b/2)

def arc_is(c, label, arc, P, Q, b):
    c.ensure(label + ' kind', type(arc).__name__ == 'Circle2D' and arc.domain is not None)
    C = c.xy(arc.center)
    c.ensure_same(label + ' centre', C, centre_of(P, Q, b, c))
    r = arc.radius
    c.ensure(label + ' radius', c.gt(r, 0))
    for n, X in (('first', P), ('second', Q), ('apex', apex_of(P, Q, b))):
        e = sub(X, C)
        c.ensure(f'{label} through the {n} point', c.eq(dot(e, e), r*r, order=2))
    s, t = arc.domain.start, arc.domain.stop
    S, T = c.call(arc.point_at_angle, s), c.call(arc.point_at_angle, t)
    # counter-clockwise from start to stop
    if b > 0:
        c.ensure_same(f'{label} start', c.xy(S), P)
        c.ensure_same(f'{label} stop', c.xy(T), Q)
    else:
        c.ensure_same(f'{label} start', c.xy(S), Q)
        c.ensure_same(f'{label} stop', c.xy(T), P)
    a = abs(b)
    n = (1 + a*a)*(1 + a*a)
    c.ensure(f'{label} included angle', c.and_(c.eq(c.cosd(t - s)*n, 1 - 6*a*a + a*a*a*a, order=4), c.eq(c.sind(t - s)*n, 4*a*(1 - a*a), order=4)))
    c.ensure(f'{label} range', c.and_(0 <= s, s <= 360, 0 <= t, t <= 360))

@contract('X01', [V + 'bulge_radius', V + 'sagitta', V + 'sagitta_dual', V + 'demi_chord', V + 'segment_vector', V + 'angle', V + 'next', V + 'prev'])
def bulge_measures(c):
    """Radius, sagitta and angle of the arc a bulge describes."""
    b = bulge(c)
    k, (A, B) = polyline(c, [b, 0])
    distinct(c, A, B)
    v, w = k[0], k[1]
    d = sub(B, A)
    m = c.sqrt(dot(d, d))
    c.ensure('bulge', c.and_(c.eq(v.bulge, b), w.bulge == 0))
    c.ensure_same('vertex', c.xy(v.point) + (v.x, v.y), A + A)
    c.ensure('chain', v.next is w and w.prev is v and w.next is None and v.prev is None)
    c.ensure_same('chord', c.xy(c.call(lambda: v.segment_vector)), d)
    c.ensure('half chord', c.eq(c.call(lambda: v.demi_chord), m/2))
    s, r, h = c.call(lambda: v.sagitta), c.call(lambda: v.bulge_radius), c.call(lambda: v.sagitta_dual)
    c.ensure('sagitta', c.eq(s, b*m/2, order=2))
    c.ensure('radius', c.and_(c.eq(r*abs(b)*4, m*(1 + b*b), order=3), c.gt(r, 0)))
    c.ensure('distance of the centre', c.eq(h*b*4, m*(1 - b*b), order=3))
    c.ensure('angle', c.eq(c.call(lambda: v.angle), 4*c.atan2d(b, 1)))
    c.ensure_same('polyline kept', [c.xy(x.point) for x in k], [A, B])

@contract('X01', [P + 'geometry', P + 'iter_on_segment', P + 'add', P + '__len__', P + '__iter__'], bounded='two vertices', deadline=300)
def bulge_arc(c):
    """The arc of a bulge joins its vertices."""
    b = bulge(c)
    k, (A, B) = polyline(c, [b, 0])
    distinct(c, A, B)
    g = c.call(k.geometry)
    c.ensure('one part', len(g) == 1)
    arc_is(c, 'arc', g[0], A, B, b)
    c.ensure_same('polyline kept', [c.xy(x.point) for x in k], [A, B])
    c.ensure_same('bulges kept', [x.bulge for x in k], [b, 0])

@contract('X01', [P + 'geometry', P + 'iter_on_segment', V + 'next', V + 'prev', P + 'is_last_index'], bounded='two vertices', deadline=300)
def closed_bulge_arc(c):
    """Closing: the last vertex's bulge describes the arc back to the first one."""
    b = bulge(c)
    k, (A, B) = polyline(c, [0, b], closed=True)
    distinct(c, A, B)
    g = c.call(k.geometry)
    c.ensure('parts', len(g) == 2 and type(g[0]).__name__ == 'Segment2D')
    c.ensure_same('segment', c.view(g[0].p0) + c.view(g[0].p1), A + B)
    arc_is(c, 'arc', g[1], B, A, b)

@contract('X01', [P + 'geometry', P + 'iter_on_segment', V + 'angle', V + 'bulge_radius', V + 'sagitta_dual', V + 'next', V + 'prev', P + '__str__'],
          bounded='1 to 6 vertices')
def straight_parts(c):
    """Without bulge, the parts are the segments between consecutive vertices, each pair once, closing included."""
    n = c.choice('n', 1, 2, 3, 4, 6)
    closed = c.bool('closed')
    k, pts = polyline(c, [0]*n, closed)
    if n == 1 and closed:
        return
    c.ensure('size', len(k) == n and k.closed is closed)
    g = c.call(k.geometry)
    pairs = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if closed else [])
    c.ensure('parts', len(g) == len(pairs))
    for s, (i, j) in zip(g, pairs):
        c.ensure('segment', type(s).__name__ == 'Segment2D')
        c.ensure_same('ends', c.view(s.p0) + c.view(s.p1), pts[i] + pts[j])
    v = list(k)
    for i, x in enumerate(v):
        nxt = v[(i + 1) % n] if closed or i + 1 < n else None
        prv = v[i - 1] if closed or i > 0 else None
        c.ensure('next', x.next is nxt)
        c.ensure('previous', x.prev is prv)
        c.ensure('null bulge', c.and_(x.angle == 0, x.bulge_radius == 0, x.sagitta_dual == 0))
    s = c.call(k.iter_on_segment)
    c.ensure('pairs of vertices', [(a._index, b._index) for a, b in s] == pairs)

# ------------------------------------------------------------------ any number of vertices

def any_polyline(c):
    """a polyline of any number of vertices, closed or not"""
    from dv import loops
    closed = c.bool('closed')
    k = c.cls(F + '.Polyline')(closed=closed)
    Vertex = c.cls(F + '.PolylineVertex')
    if not isinstance(getattr(k, '_vertices', None), list):
        c.not_applicable('vertices held otherwise')
    def make(i):
        j = len(vertices.known)
        b = c.real(f'b{j}')
        c.assume(b >= -20, b <= 20)
        return Vertex(k, i, c.vec(f'p{j}'), b)
    vertices = k._vertices = loops.Seq(c.int('n', lo=2), make, 'vertices')
    return k, vertices, closed

def concrete_polyline(c):
    n = c.int('n', 2, 80)
    closed = c.bool('closed')
    bulges = [c.choice(f'straight{i}', 0, 1) and c.real(f'b{i}', lo=-20, hi=20) for i in range(n)]
    for b in bulges:
        if b:
            c.robust(b, tol=2e-2)
    k, pts = polyline(c, bulges, closed)
    pairs = [(i, i + 1) for i in range(n - 1)] + ([(n - 1, 0)] if closed else [])
    return k, pts, bulges, pairs

@contract('X01', [P + 'iter_on_segment', P + 'is_last_index', P + '__len__', P + '__getitem__', V + 'next', V + 'prev'])
def pairs_any_number(c):
    """Any number of vertices: each vertex is joined to the next one, the last to the first when closed, each pair once."""
    if not c.symbolic:
        k, pts, bulges, pairs = concrete_polyline(c)
        v = list(k)
        c.ensure('pairs', [(a._index, b._index) for a, b in c.call(k.iter_on_segment)] == pairs)
        nxt = dict(pairs)
        prv = {j: i for i, j in pairs}
        for i, x in enumerate(v):
            c.ensure('next', x.next is (v[nxt[i]] if i in nxt else None))
            c.ensure('previous', x.prev is (v[prv[i]] if i in prv else None))
        return
    from dv import loops
    k, v, closed = any_polyline(c)
    def follow(i):
        return v.at(i + 1) if i + 1 < v.n else v.at(0)
    def same(label, pair, want):
        c.ensure(label, len(pair) == 2 and pair[0] is want[0] and pair[1] is want[1])
    with loops.unbounded(c, lambda loop, state: loops.Independent(c), **loops.by_contract(c)):
        what = c.choice('what', 'pairs', 'next', 'previous')
        if what == 'pairs':
            loops.enumerates(c, c.call(k.iter_on_segment), v.n if closed else v.n - 1, lambda i: (v.at(i), follow(i)), same)
            return
        i = c.int('index', lo=0)
        c.assume(i < v.n)
        x = v.at(i)
        if what == 'next':
            r = c.call(lambda: x.next)
            c.ensure('next', r is None if not closed and not i + 1 < v.n else r is follow(i))
        else:
            r = c.call(lambda: x.prev)
            c.ensure('previous', (r is v.at(i - 1)) if i > 0 else r is v.at(v.n - 1) if closed else r is None)

@contract('X01', [P + 'geometry', V + 'segment_vector', V + 'next'], deadline=300)
def geometry_any_number(c):
    """Any number of vertices: one part for each pair, the arc of the bulge or the segment (the loop has independent steps)."""
    if not c.symbolic:
        k, pts, bulges, pairs = concrete_polyline(c)
        for i, j in pairs:
            distinct(c, pts[i], pts[j])
        g = c.call(k.geometry)
        c.ensure('parts', len(g) == len(pairs))
        for s, (i, j) in zip(g, pairs):
            if bulges[i]:
                arc_is(c, 'arc', s, pts[i], pts[j], bulges[i])
            else:
                c.ensure('segment', type(s).__name__ == 'Segment2D')
                c.ensure_same('ends', c.view(s.p0) + c.view(s.p1), pts[i] + pts[j])
        return
    from dv import loops
    k, v, closed = any_polyline(c)
    Polyline = type(k)
    def pair(i):
        a = v.at(i)
        b = v.at(i + 1) if i + 1 < v.n else v.at(0)
        distinct(c, c.xy(a.point), c.xy(b.point))
        return a, b
    pairs = loops.Seq(v.n if closed else v.n - 1, pair, 'pairs')
    used = []
    class Parts(loops.Independent):
        def check(self, loop, outs):
            a, b = pairs.at(loop.k)
            A, B = c.xy(a.point), c.xy(b.point)
            if len(outs) != 1:
                loops.unsupported('not one list of parts')
            (self.name, parts), = outs.items()
            c.ensure('one part for each pair', len(parts) == 1)
            if a.bulge == 0:
                c.ensure('segment', type(parts[0]).__name__ == 'Segment2D')
                c.ensure_same('ends', c.view(parts[0].p0) + c.view(parts[0].p1), A + B)
            else:
                arc_is(c, 'arc', parts[0], A, B, a.bulge)
    def invariant(loop, state):
        used.append(Parts(c))
        return used[-1]
    # the pairs by contract (pairs_any_number)
    saved = Polyline.iter_on_segment
    Polyline.iter_on_segment = lambda self: loops.Iter(pairs)
    try:
        with loops.unbounded(c, invariant, **loops.by_contract(c)):
            r = c.call(k.geometry)
    finally:
        Polyline.iter_on_segment = saved
    if len(used) != 1:
        c.not_applicable('not one loop over the pairs')
    c.ensure('the parts are handed out', any(r is x for x in used[0].outs.values()))
