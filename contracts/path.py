"""Paths (H01).

The stop point of a part only depends on its own definition and on the stop point of the part before it, so a path of any
length is settled by the first part and by a part after an arbitrary part: every kind of command is put under contract in
both positions, and a shorter history stands for any."""

from dv.contract import contract
from contracts.transform import transformation
from contracts.vector import dot, cross, nonnull
from contracts.linear import sub

F = 'Patro.GeometryEngine.Path'
P = F + ':Path2D.'

def add(p, q):
    return (p[0] + q[0], p[1] + q[1])

def twice(p, q):
    """reflection of q in p"""
    return (2*p[0] - q[0], 2*p[1] - q[1])

COMPASS = dict(north=90, south=-90, east=0, west=180, north_east=45, north_west=135, south_east=-45, south_west=-135)
LINEAR = ('line', 'horizontal', 'vertical') + tuple(COMPASS)
CURVED = ('quadratic', 'cubic', 'stringed_quadratic', 'stringed_cubic', 'arc')

def compass(c, name):
    """unit vector of a direction of the compass"""
    h = c.sqrt(c.q(1, 2))
    x = {'east': 1, 'west': -1}.get(name.split('_')[-1], 0)
    y = {'north': 1, 'south': -1}.get(name.split('_')[0], 0)
    return (x*h, y*h) if x and y else (x, y)

def command(c, path, kind, tag, absolute, start, prev=None, radius=None):
    """apply a command; the part, the points it denotes after the start, in absolute coordinates"""
    def point(n):
        v = c.vec(f'{tag}.{n}')
        p = c.xy(v)
        return v, p if absolute else add(start, p)
    if kind == 'line':
        v, p = point('p')
        return c.call(path.line_to, v, radius, absolute), [p]
    if kind in ('horizontal', 'vertical'):
        l = c.real(tag + '.l')
        f = getattr(path, kind + '_to')
        part = c.call(f, l, radius, absolute)
        if kind == 'horizontal':
            return part, [(l if absolute else start[0] + l, start[1])]
        return part, [(start[0], l if absolute else start[1] + l)]
    if kind in COMPASS:
        l = c.real(tag + '.l')
        u = compass(c, kind)
        return c.call(getattr(path, kind + '_to'), l, radius), [(start[0] + l*u[0], start[1] + l*u[1])]
    if kind == 'quadratic':
        (v, p), (w, q) = point('p'), point('q')
        return c.call(path.quadratic_to, v, w, absolute), [p, q]
    if kind == 'cubic':
        (v, p), (w, q), (z, r) = point('p'), point('q'), point('r')
        return c.call(path.cubic_to, v, w, z, absolute), [p, q, r]
    if kind == 'stringed_quadratic':
        v, p = point('p')
        q = twice(start, prev[1][0]) if prev and prev[0] == 'quadratic' else start
        return c.call(path.stringed_quadratic_to, v, absolute), [q, p]
    if kind == 'stringed_cubic':
        (v, p), (w, q) = point('p'), point('q')
        r = twice(start, prev[1][1]) if prev and prev[0] == 'cubic' else start
        return c.call(path.stringed_cubic_to, v, w, absolute), [r, p, q]
    if kind == 'arc':
        v, p = point('p')
        a, b, g = c.real(tag + '.rx', pos=True), c.real(tag + '.ry', pos=True), c.angle(tag + '.g')
        c.robust(a, b, tol=1e-2)
        return c.call(path.arc_to, v, a, b, g, True, False, absolute), [p]
    raise NameError(kind)

def family(kind):
    return kind.replace('stringed_', '')

def new_path(c):
    v = c.vec('p0')
    return c.cls(F + '.Path2D')(v), c.xy(v)

def check_part(c, label, path, i, part, start, pts, kind):
    c.ensure(f'{label} place', path[i] is part and part.index == i and part.path is path)
    c.ensure_same(f'{label} start', c.xy(c.call(lambda: part.start_point)), start)
    c.ensure_same(f'{label} stop', c.xy(c.call(lambda: part.stop_point)), pts[-1])
    c.ensure_same(f'{label} points', [c.xy(p) for p in c.call(lambda: part.points)], [start] + pts)
    if kind != 'arc':
        g = c.call(lambda: part.geometry)
        name = dict(quadratic='QuadraticBezier2D', cubic='CubicBezier2D').get(family(kind), 'Segment2D')
        c.ensure(f'{label} kind', type(g).__name__ == name)
        c.ensure_same(f'{label} geometry', [c.xy(p) for p in g.points], [start] + pts)

def adds(name, kinds, prevs):
    def check(c):
        """A part starts where the part before stops, stops at the coordinate its command denotes; the parts before are kept."""
        path, p0 = new_path(c)
        before = c.choice('before', 'none', *prevs)
        start, prev, parts, descr = p0, None, [], []
        if before == 'long':
            for i in range(3):
                part, pts = command(c, path, 'line', f'b{i}', False, start)
                parts.append(part); descr.append((start, pts, 'line'))
                start = pts[-1]
            prev = ('line', pts)
        elif before != 'none':
            part, pts = command(c, path, before, 'b', c.bool('b.absolute') if before not in COMPASS else False, start)
            parts.append(part); descr.append((start, pts, before))
            start, prev = pts[-1], (family(before), pts)
        kind = c.choice('kind', *kinds)
        absolute = c.bool('absolute') if kind not in COMPASS else False
        part, pts = command(c, path, kind, 'k', absolute, start, prev)
        parts.append(part); descr.append((start, pts, kind))
        c.ensure('number of parts', len(path) == len(parts))
        c.ensure('order of the parts', all(a is b for a, b in zip(path, parts)))
        c.ensure('not closed', path.is_closed is False)
        c.ensure_same('start of the path', c.xy(path.p0), p0)
        for i, (x, (s, q, k)) in enumerate(zip(parts, descr)):
            check_part(c, 'part', path, i, x, s, q, k)
        c.ensure('chain', parts[0].prev_part is None and parts[-1].next_part is None
                 and all(a.next_part is b and b.prev_part is a for a, b in zip(parts, parts[1:])))
    check.__name__ = name
    check.__module__ = __name__
    return check

def methods(*kinds):
    return [P + k + '_to' for k in kinds]

PARTS = [F + ':PathPart.' + n for n in ('start_point', 'prev_part', 'next_part', 'to_absolute_point', 'index', 'path')]

contract('H01', methods(*LINEAR) + [P + '_add_part', P + '__getitem__', P + '__len__', P + '__iter__', P + 'absolute_horizontal_to',
         P + 'absolute_vertical_to', F + ':DirectionalSegment.stop_point', F + ':AbsoluteHorizontalSegment.stop_point',
         F + ':AbsoluteVerticalSegment.stop_point', F + ':OnePointMixin.stop_point', F + ':LinearSegment.points'] + PARTS)(
    adds('straight_command', LINEAR, ('line', 'horizontal', 'vertical', 'north_east', 'quadratic', 'cubic', 'arc', 'long')))

contract('H01', methods(*CURVED) + [P + '_stringed_points', F + ':QuadraticBezierSegment.points', F + ':CubicBezierSegment.points',
         F + ':QuadraticBezierSegment.stop_point', F + ':CubicBezierSegment.stop_point', F + ':ArcSegment.points',
         F + ':TwoPointMixin.point1', F + ':TwoPointMixin.point2', F + ':ThreePointMixin.point3'] + PARTS)(
    adds('curved_command', CURVED, ('line', 'horizontal', 'south', 'quadratic', 'cubic', 'stringed_quadratic', 'stringed_cubic', 'arc', 'long')))

@contract('H01', [P + 'line_to', P + 'quadratic_to', P + 'cubic_to', P + 'arc_to', P + '__init__'])
def command_copies_points(c):
    """A path keeps its own points: changing a point handed to a command later does not move the path, nor the reverse."""
    v = c.vec('p0')
    p0 = c.xy(v)
    path = c.cls(F + '.Path2D')(v)
    kind = c.choice('kind', 'line', 'quadratic', 'cubic', 'arc')
    pts = [c.vec(f'p{i}') for i in range(1, 4)]
    n = dict(line=1, quadratic=2, cubic=3, arc=1)[kind]
    old = [c.xy(p) for p in pts]
    args = pts[:n] + ([1, 2, 0, False, True] if kind == 'arc' else [])
    part = c.call(getattr(path, kind + '_to'), *args, absolute=True)
    for p in pts:
        p.x = 77
    c.ensure_same('part kept', [c.xy(p) for p in part.points], [p0] + old[:n])
    v.y = 55
    c.ensure_same('start kept', c.xy(part.start_point), p0)

@contract('H01', [P + 'close', P + 'is_closed', P + '_add_part', F + ':LinearSegment.close', F + ':LinearSegment.next_part',
                  F + ':LinearSegment.prev_part'], bounded='five lists of parts; coordinates arbitrary')
def path_closing(c):
    """Closing returns to the start of the path; a closed path takes no further command."""
    path, p0 = new_path(c)
    start = p0
    kinds = c.choice('parts', (), ('line',), ('line', 'quadratic'), ('east', 'line', 'vertical'), ('cubic', 'arc'))
    descr = []
    for i, k in enumerate(kinds):
        part, pts = command(c, path, k, f'k{i}', False, start, None)
        descr.append((part, start, pts, k))
        start = pts[-1]
    seg = c.call(path.close)
    descr.append((seg, start, [p0], 'line'))
    c.ensure('closed', path.is_closed is True and path.stop_segment is seg and len(path) == len(kinds) + 1)
    c.ensure_same('closing point', c.xy(seg.stop_point), p0)
    for i, (x, s, q, k) in enumerate(descr):
        check_part(c, 'part', path, i, x, s, q, k)
    later = c.choice('later', 'line', 'cubic', 'east', 'close')
    if later == 'close':
        r = c.call(path.close)
    else:
        r, _ = command(c, path, later, 'later', False, p0)
    c.ensure('no further part', r is None and len(path) == len(kinds) + 1 and path.stop_segment is seg)

def describe(c, part):
    """everything a part denotes"""
    out = [type(part).__name__, part.index]
    if hasattr(part, '_radius'):
        out += [part._radius, part._closing, part._start_bulge]
    for n in ('_radius_x', '_radius_y', '_angle', '_large_arc', '_sweep', '_absolute'):
        if hasattr(part, n):
            out.append(getattr(part, n))
    return out + [c.xy(part.start_point), c.xy(part.stop_point)]

def denoted(c, path):
    return [c.xy(path.p0), path.is_closed] + [describe(c, p) for p in path]

SAMPLES = (('line', 'quadratic', 'cubic', 'arc'), ('stringed_cubic', 'stringed_cubic', 'line'), ('east', 'line', 'north_west', 'line'),
           ('horizontal', 'arc', 'vertical', 'stringed_quadratic'))

def sample(c):
    path, p0 = new_path(c)
    start, prev = p0, None
    kinds = c.choice('parts', *SAMPLES)
    absolute = c.bool('absolute')
    pts = []
    for i, k in enumerate(kinds):
        _, q = command(c, path, k, f'k{i}', absolute and k not in COMPASS, start, prev)
        start, prev = q[-1], (family(k), q)
        pts.append(q)
    return path, p0, kinds, pts

ALL_PARTS = ('PathSegment', 'AbsoluteHorizontalSegment', 'AbsoluteVerticalSegment', 'DirectionalSegment', 'QuadraticBezierSegment',
             'CubicBezierSegment', 'ArcSegment')

@contract('H01', [P + 'clone'] + [f'{F}:{n}.clone' for n in ALL_PARTS], bounded='paths of 3 to 5 parts, every kind of part')
def path_clone(c):
    """A copy keeps every part and mark, and is independent."""
    path, p0, kinds, pts = sample(c)
    if c.bool('closed'):
        path.close()
    old = denoted(c, path)
    k = c.call(path.clone)
    c.ensure('copy', k is not path and type(k) is type(path) and all(x.path is k for x in k))
    c.ensure('no shared part', not any(x is y for x in path for y in k))
    c.ensure_same('copy denotes the same', denoted(c, k), old)
    c.ensure_same('source kept', denoted(c, path), old)
    if c.bool('move the copy'):
        k.transform(c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D').Translation(c.V(3, 4)))
        k.line_to(c.V(1, 1))
        c.ensure_same('source independent', denoted(c, path), old)
    else:
        path.transform(c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D').Translation(c.V(3, 4)))
        c.ensure_same('copy independent', denoted(c, k), old)

SIMILAR = ('Identity', 'Scale', 'Parity', 'XParity', 'YParity', 'Rotation', 'Translation')

def image(coef, p):
    a, b, x, d, e, y = coef
    return (a*p[0] + b*p[1] + x, d*p[0] + e*p[1] + y)

@contract('H01', [P + 'apply_transformation', F + ':PathSegment.to_absolute', F + ':PathSegment.apply_transformation',
                  F + ':AbsoluteHVSegment.to_path_segment', F + ':DirectionalSegment.to_path_segment', F + ':OnePointMixin.apply_transformation',
                  F + ':TwoPointMixin.apply_transformation', F + ':ThreePointMixin.apply_transformation',
                  F + ':QuadraticBezierSegment.to_absolute', F + ':CubicBezierSegment.to_absolute'],
          bounded='paths of 3 to 5 parts, every kind of part', deadline=300)
def path_transform(c):
    """Transforming a path moves the start, the stop and every control point of each part; the path stays contiguous."""
    path, p0 = new_path(c)
    kinds = c.choice('parts', ('line', 'quadratic', 'cubic', 'line'), ('stringed_cubic', 'stringed_cubic', 'south'), ('east', 'line', 'north_west', 'line'),
                     ('horizontal', 'stringed_quadratic', 'vertical', 'stringed_quadratic'))
    absolute = c.bool('absolute')
    start, prev, pts = p0, None, []
    for i, k in enumerate(kinds):
        _, q = command(c, path, k, f'k{i}', absolute and k not in COMPASS, start, prev)
        start, prev = q[-1], (family(k), q)
        pts.append(q)
    closed = c.bool('closed')
    if closed:
        path.close()
        pts.append([p0])
        kinds = kinds + ('line',)
    t, coef = transformation(c, 't', True)
    copy = c.bool('clone')
    old = denoted(c, path)
    r = c.call(path.transform, t, clone=copy)
    if copy:
        c.ensure_same('source kept', denoted(c, path), old)
    else:
        r = path
    start = image(coef, p0)
    c.ensure_same('start of the path', c.xy(r.p0), start)
    c.ensure('kept closed', r.is_closed is closed and len(r) == len(pts))
    for i, (part, q, k) in enumerate(zip(list(r), pts, kinds)):
        q = [image(coef, x) for x in q]
        check_part(c, 'transformed part', r, i, part, start, q, k)
        start = q[-1]

@contract('H01', [P + n for n in ('clone', 'apply_transformation', 'close', '_add_part', 'move_to', '__getitem__', '__len__', '__iter__', 'bounding_box')] + methods(*LINEAR, *CURVED),
          bounded='runs on the untouched code: up to 24 commands with transformations, copies, queries and a closing between them', concrete_only=True)
def path_history(c):
    """A path of many commands denotes the same coordinates after any history of commands, copies, queries and transformations."""
    path, p0 = new_path(c)
    if c.bool('move first'):
        v = c.vec('m')
        path.move_to(v)
        p0 = c.xy(v)
    start, prev, descr, closed = p0, None, [], False
    kept = []
    for i in range(c.int('steps', 0, 30)):
        what = c.choice(f'what{i}', *('command',)*10, 'transform', 'transform', 'clone', 'ask', 'ask', 'close')
        if what == 'command' and not descr and c.bool(f'move{i}'):
            # a subpath that is still empty starts elsewhere
            v = c.vec(f'm{i}')
            path.move_to(v)
            p0 = start = c.xy(v)
        if what == 'command':
            k = c.choice(f'kind{i}', *LINEAR[:4], *CURVED, 'north_east', 'west', 'south_west')
            absolute = c.bool(f'absolute{i}') and k not in COMPASS
            part, pts = command(c, path, k, f'k{i}', absolute, start, prev)
            if closed:
                c.ensure('closed path kept', part is None and len(path) == len(descr))
                continue
            descr.append((k, start, pts))
            start, prev = pts[-1], (family(k), pts)
        elif what == 'close':
            if closed:
                continue
            path.close()
            descr.append(('line', start, [p0]))
            start, prev, closed = p0, None, True
        elif what == 'transform':
            arcs = any(k == 'arc' for k, _, _ in descr)
            t, coef = transformation(c, f't{i}', True, SIMILAR if arcs else ('Shear', 'Rotation', 'Generic', 'Parity', 'XParity', 'Translation', 'Scale'))
            if abs(coef[0]*coef[4] - coef[1]*coef[3]) < .2 or max(abs(x) for x in coef) > 12:
                continue
            old = denoted(c, path)
            if c.bool(f'copy{i}'):
                other = path.transform(t, clone=True)
                c.ensure_same('source kept', denoted(c, path), old)
                kept.append((path, old))
                path = other
            else:
                path.transform(t)
            p0 = image(coef, p0)
            descr = [(k, image(coef, s), [image(coef, q) for q in ps]) for k, s, ps in descr]
            start = image(coef, start)
            prev = prev and (prev[0], descr[-1][2])
        elif what == 'clone':
            kept.append((path, denoted(c, path)))
            path = path.clone()
        else:
            for part in path:
                if c.bool(f'ask{i}.{part.index}'):
                    part.start_point, part.stop_point, part.points
            if descr and c.bool(f'box{i}') and not any(k == 'arc' for k, _, _ in descr):
                path.bounding_box
        c.ensure_same('start of the path', c.xy(path.p0), p0)
        c.ensure('marks', path.is_closed is closed and len(path) == len(descr))
    for i, (part, (k, s, ps)) in enumerate(zip(list(path), descr)):
        check_part(c, 'part', path, i, part, s, ps, k)
    c.ensure('ends', path[-1] is None and path[len(descr)] is None)
    for other, old in kept:
        c.ensure_same('former path kept', denoted(c, other), old)

# ------------------------------------------------------------------ fillets

def unit(c, d):
    m = c.sqrt(dot(d, d))
    return (d[0]/m, d[1]/m), m

def corner(c):
    """any two proper sides that neither continue straight nor turn back, in polar form:
    first side of direction g and length l, second side of direction g + 2 h and length m"""
    o = c.xy(c.vec('o'))
    g, h = c.angle('g'), c.angle('h', lo=-90, hi=90)
    l, m = c.real('l', pos=True), c.real('m', pos=True)
    c.assume(-90 < h, h < 90, h != 0)
    c.robust(h, 90 - h, 90 + h, tol=3)
    c.robust(l, m, tol=1e-1)
    u = (c.cosd(g), c.sind(g))
    k, s = c.cosd(h), c.sind(h)
    v = (u[0]*(k*k - s*s) - u[1]*2*k*s, u[0]*2*k*s + u[1]*(k*k - s*s))
    a = (o[0] - l*u[0], o[1] - l*u[1])
    b = (o[0] + m*v[0], o[1] + m*v[1])
    return a, o, b, u, v, h

def tangent(c, label, part, o, u, v, h, r):
    """the fillet of a corner: a circle of radius r touching both sides from the inside"""
    C = c.xy(c.call(lambda: part.bulge_center))
    S = c.xy(c.call(lambda: part.bulge_start_point))
    E = c.xy(c.call(lambda: part.bulge_stop_point))
    def square(p):
        return dot(p, p)
    c.ensure(f'{label}: first touching point on the first side', c.eq(cross(u, sub(S, o)), 0, order=2))
    c.ensure(f'{label}: second touching point on the second side', c.eq(cross(v, sub(E, o)), 0, order=2))
    c.ensure(f'{label}: touches the first side', c.eq(dot(u, sub(C, S)), 0, order=2))
    c.ensure(f'{label}: touches the second side', c.eq(dot(v, sub(C, E)), 0, order=2))
    c.ensure(f'{label}: radius at the first point', c.eq(square(sub(C, S)), r*r, order=3))
    c.ensure(f'{label}: radius at the second point', c.eq(square(sub(C, E)), r*r, order=3))
    c.ensure(f'{label}: first point before the corner', c.lt(dot(u, sub(S, o)), 0, order=2))
    c.ensure(f'{label}: second point after the corner', c.gt(dot(v, sub(E, o)), 0, order=2))
    # the center is on the inner side of both lines
    w = 1 if h > 0 else -1
    c.ensure(f'{label}: inner side', c.and_(c.gt(w*cross(u, sub(C, o)), 0, order=2), c.gt(w*cross(v, sub(C, o)), 0, order=2)))
    return C, S, E

def fillet_corner(c):
    a, o, b, u, v, h = corner(c)
    path = c.cls(F + '.Path2D')(c.V(*a))
    r = c.real('r', pos=True)
    c.robust(r, tol=1e-1)
    first = path.line_to(c.V(*o), absolute=True)
    part = path.line_to(c.V(*b), r, absolute=True)
    return path, first, part, a, o, b, u, v, h, r

@contract('H01', [F + ':LinearSegment.' + n for n in ('bulge_center', 'bulge_start_point', 'bulge_stop_point', 'bulge_angle_rad', 'bissector',
                                                    'direction', 'half_bulge_angle', 'radius')], deadline=300)
def fillet_is_tangent(c):
    """A fillet touches both sides and lies in the corner."""
    path, first, part, a, o, b, u, v, h, r = fillet_corner(c)
    c.ensure_same('radius', part.radius, r)
    tangent(c, 'fillet', part, o, u, v, h, r)
    c.ensure_same('kept', [c.xy(p) for p in (path.p0, first.stop_point, part.stop_point)], [a, o, b])

@contract('H01', [F + ':LinearSegment.bulge_geometry', F + ':LinearSegment.bulge_angle'], deadline=300)
def fillet_arc(c):
    """The arc of a fillet runs from one touching point to the other, along the corner (centre and touching points stand by
    the contract fillet_is_tangent)."""
    path, first, part, a, o, b, u, v, h, r = fillet_corner(c)
    if c.symbolic:
        w = 1 if h > 0 else -1
        C = c.xy(c.vec('centre'))
        S, E = (C[0] + w*r*u[1], C[1] - w*r*u[0]), (C[0] + w*r*v[1], C[1] - w*r*v[0])
        class Fillet(type(part)):
            bulge_center = property(lambda self: c.V(*C))
            bulge_start_point = property(lambda self: c.V(*S))
            bulge_stop_point = property(lambda self: c.V(*E))
        part.__class__ = Fillet
    else:
        S, E = c.xy(part.bulge_start_point), c.xy(part.bulge_stop_point)
    g = c.call(lambda: part.bulge_geometry)
    c.ensure('kind', type(g).__name__ == 'Circle2D' and g.domain is not None)
    c.ensure_same('centre', c.xy(g.center), c.xy(part.bulge_center))
    c.ensure_same('radius', g.radius, r)
    s, t = g.domain.start, g.domain.stop
    P, Q = (S, E) if h > 0 else (E, S)
    C = c.xy(g.center)
    # counter-clockwise from start to stop
    c.ensure_same('start', (C[0] + r*c.cosd(s), C[1] + r*c.sind(s)), P)
    c.ensure_same('stop', (C[0] + r*c.cosd(t), C[1] + r*c.sind(t)), Q)

@contract('H01', [F + ':LinearSegment.points', F + ':LinearSegment.prev_part', F + ':PathSegment.geometry', F + ':DirectionalSegmentMixin.geometry'],
          deadline=300)
def fillet_shortens_sides(c):
    """The sides end and start at the touching points of the fillets, the other ends are kept."""
    path, first, part, a, o, b, u, v, h, r = fillet_corner(c)
    S, E = c.xy(part.bulge_start_point), c.xy(part.bulge_stop_point)
    c.ensure_same('side before', [c.xy(p) for p in c.call(lambda: first.points)], [a, S])
    c.ensure_same('side after', [c.xy(p) for p in c.call(lambda: part.points)], [E, b])
    c.ensure_same('drawn before', c.view(tuple(first.geometry.points)), (a, S))
    c.ensure_same('drawn after', c.view(tuple(part.geometry.points)), (E, b))
    nxt = c.choice('next', 'line', 'quadratic', 'north', 'close')
    w = c.vec('w')
    z = c.xy(w)
    if nxt == 'line':
        path.line_to(w, absolute=True)
    elif nxt == 'quadratic':
        path.quadratic_to(w, c.V(1, 2), absolute=True)
    elif nxt == 'north':
        path.north_to(3)
    else:
        path.close()
    c.ensure_same('side before, later', [c.xy(p) for p in c.call(lambda: first.points)], [a, S])
    c.ensure_same('side after, later', [c.xy(p) for p in c.call(lambda: part.points)], [E, b])
    c.ensure_same('start of the next part', c.xy(path[2].points[0]), b)

@contract('H01', [P + 'close', F + ':LinearSegment.close', F + ':LinearSegment.prev_part', F + ':LinearSegment.next_part', F + ':LinearSegment.points'],
          deadline=300)
def closing_fillet(c):
    """Closing with a radius rounds the corner at the start of the path."""
    a, o, b, u, v, h = corner(c)
    r = c.real('r', pos=True)
    c.robust(r, tol=1e-1)
    path = c.cls(F + '.Path2D')(c.V(*o))
    first = path.line_to(c.V(*b), absolute=True)
    second = path.line_to(c.V(*a), absolute=True)
    last = c.call(path.close, close_radius=r)
    tangent(c, 'fillet', first, o, u, v, h, r)
    S, E = c.xy(first.bulge_start_point), c.xy(first.bulge_stop_point)
    c.ensure_same('first side', [c.xy(p) for p in c.call(lambda: first.points)], [E, b])
    c.ensure_same('second side', [c.xy(p) for p in c.call(lambda: second.points)], [b, a])
    c.ensure_same('last side', [c.xy(p) for p in c.call(lambda: last.points)], [a, S])
    c.ensure_same('corners kept', [c.xy(p) for p in (path.p0, first.stop_point, second.stop_point, last.stop_point)], [o, b, a, o])

def rounded(c, kinds, p0, pts, radii, closed):
    """a path of straight parts with radii, closed with radii or open"""
    path = c.cls(F + '.Path2D')(c.V(*p0))
    start = p0
    for k, p, r in zip(kinds, pts, radii):
        if k == 'line':
            path.line_to(c.V(*p), r, absolute=True)
        elif k == 'relative':
            path.line_to(c.V(*sub(p, start)), r)
        elif k == 'horizontal':
            path.horizontal_to(p[0] - start[0], r)
        elif k == 'vertical':
            path.vertical_to(p[1] - start[1], r)
        elif k == 'x':
            path.horizontal_to(p[0], r, absolute=True)
        elif k == 'y':
            path.vertical_to(p[1], r, absolute=True)
        start = p
    if closed == 'sharp':
        path.close()
    elif closed == 'rounded':
        path.close(radii[-2], radii[-1])
    elif closed == 'last':
        path.close(None, radii[-1])
    return path

ROUNDED = (('line', 'line', 'relative'), ('relative', 'relative', 'line'), ('horizontal', 'vertical', 'horizontal'), ('x', 'y', 'x'),
           ('y', 'relative', 'vertical'))

def rounded_sample(c):
    kinds = c.choice('parts', *ROUNDED)
    p0 = c.xy(c.vec('p0'))
    pts, start = [], p0
    for i, k in enumerate(kinds):
        x, y = c.reals(f'p{i+1}.x', f'p{i+1}.y') if k in ('line', 'relative') else (c.real(f'p{i+1}.x'),)*2
        start = dict(line=(x, y), relative=(x, y), horizontal=(x, start[1]), x=(x, start[1]), vertical=(start[0], y), y=(start[0], y))[k]
        pts.append(start)
    radii = [None] + [c.real(f'r{i}', pos=True) for i in range(1, 5)]
    if c.bool('sharp corner'):
        radii[2] = None
    closed = c.choice('closed', None, 'sharp', 'rounded', 'last')
    return kinds, p0, pts, radii, closed

def corners(c, path):
    """what a path of straight parts denotes"""
    out = [c.xy(path.p0), path.is_closed, len(path)]
    for i, p in enumerate(path):
        before, after = p.prev_part, p.next_part
        out.append((p.index, path[i] is p, p.path is path, p.radius, c.xy(p.start_point), c.xy(p.stop_point),
                    None if before is None else before.index, None if after is None else after.index))
    return out

def proper(c, path):
    """every rounded corner is a proper corner (a fillet exists)"""
    for p in path:
        if p.radius is not None:
            q = p.prev_part
            u, v = sub(c.xy(q.stop_point), c.xy(q.start_point)), sub(c.xy(p.stop_point), c.xy(p.start_point))
            if abs(cross(u, v)) < .1*c.sqrt(dot(u, u)*dot(v, v)) + 1e-3:
                return False
    return True

def fillets(c, path):
    return [None if p.radius is None else (c.xy(p.bulge_center), c.xy(p.bulge_start_point), c.xy(p.bulge_stop_point), [c.xy(q) for q in p.points])
            for p in path]

@contract('H01', [P + 'clone', F + ':PathSegment.clone', F + ':AbsoluteHorizontalSegment.clone', F + ':AbsoluteVerticalSegment.clone',
                  F + ':DirectionalSegment.clone'], bounded='paths of 3 or 4 parts, every kind of straight part')
def rounded_clone(c):
    """A copy keeps every radius and the rounding of the closing, and later changes of it leave the source."""
    kinds, p0, pts, radii, closed = rounded_sample(c)
    path = rounded(c, kinds, p0, pts, radii, closed)
    old = corners(c, path)
    k = c.call(path.clone)
    c.ensure_same('copy', corners(c, k), old)
    c.ensure('kinds', [type(p).__name__ for p in k] == [type(p).__name__ for p in path])
    c.ensure_same('source kept', corners(c, path), old)
    m = c.call(k.clone)
    c.ensure_same('copy of the copy', corners(c, m), old)
    for p in k:
        if p.radius is not None:
            p.radius = p.radius + 1
    c.ensure_same('source independent', corners(c, path), old)
    if not c.symbolic and proper(c, path):
        want = fillets(c, path)
        c.ensure_same('fillets', fillets(c, m), want)

@contract('H01', [P + 'apply_transformation', F + ':PathSegment.apply_transformation', F + ':AbsoluteHVSegment.to_path_segment',
                  F + ':DirectionalSegment.to_path_segment', F + ':PathSegment.to_absolute'],
          bounded='paths of 3 or 4 parts, every kind of straight part', deadline=400)
def rounded_transform(c):
    """A similarity scales the radii with the sides and keeps every rounding, the one of the closing included."""
    kinds, p0, pts, radii, closed = rounded_sample(c)
    path = rounded(c, kinds, p0, pts, radii, closed)
    t, coef = transformation(c, 't', True, SIMILAR)
    s = c.sqrt(coef[0]*coef[0] + coef[3]*coef[3]) if t.type.name != 'Rotation' else 1
    c.assume(s != 0)
    c.robust(s, tol=1e-2)
    copy = c.bool('clone')
    old = corners(c, path)
    r = c.call(path.transform, t, clone=copy)
    if copy:
        c.ensure_same('source kept', corners(c, path), old)
    else:
        r = path
    fresh = rounded(c, ('line',)*len(kinds), image(coef, p0), [image(coef, p) for p in pts],
                    [None if x is None else s*x for x in radii], closed)
    c.ensure_same('as built from the images', corners(c, r), corners(c, fresh))
    if not c.symbolic and proper(c, fresh):
        want = fillets(c, fresh)
        c.ensure_same('fillets', fillets(c, r), want)

@contract('H01', [F + ':ArcSegment.apply_transformation', F + ':ArcSegment.to_absolute', F + ':ArcSegment.points'], deadline=400)
def arc_transform(c):
    """A transformed arc part: the end points are moved, its ellipse is the image of the ellipse, its side is kept."""
    path, p0 = new_path(c)
    absolute = c.bool('absolute')
    v = c.vec('p')
    stop = c.xy(v) if absolute else add(p0, c.xy(v))
    a, b, g = c.real('rx', pos=True), c.real('ry', pos=True), c.angle('g')
    large, sweep = c.bool('large'), c.bool('sweep')
    part = path.arc_to(v, a, b, g, large, sweep, absolute)
    # any affine map with an inverse, given by the images of the two semi-axes
    U, V, o = (c.xy(w) for w in c.vecs('U', 'V', 't'))
    det = cross(U, V)
    c.assume(det != 0)
    c.robust(det, tol=2e-1)
    c.robust(a, b, tol=1e-1)
    ca, sa = c.cosd(g), c.sind(g)
    m = [U[0]*ca/a - V[0]*sa/b, U[0]*sa/a + V[0]*ca/b, U[1]*ca/a - V[1]*sa/b, U[1]*sa/a + V[1]*ca/b]
    t = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D').Screen(0)
    for i, x in enumerate((m[0], m[1], o[0], m[2], m[3], o[1], 0, 0, 1)):
        t.array[i // 3, i % 3] = x
    coef = (m[0], m[1], o[0], m[2], m[3], o[1])
    c.call(path.transform, t)
    part = path[0]
    c.ensure_same('ends', [c.xy(p) for p in part.points], [image(coef, p0), image(coef, stop)])
    c.ensure('flags', part._large_arc is large and part._sweep is (sweep if det > 0 else not sweep))
    # matrices of both ellipses:  (M R D)(M R D)^T = (R' D')(R' D')^T
    k, s = c.cosd(part._angle), c.sind(part._angle)
    x, y = part._radius_x, part._radius_y
    e = (U[0], V[0], U[1], V[1])
    f = (x*k, -y*s, x*s, y*k)
    c.ensure('radii', c.and_(c.gt(x, 0), c.gt(y, 0)))
    for n, (i, j) in dict(xx=(0, 0), xy=(0, 2), yy=(2, 2)).items():
        c.ensure('image of the ellipse ' + n, c.eq(e[i]*e[j] + e[i+1]*e[j+1], f[i]*f[j] + f[i+1]*f[j+1], order=2))

@contract('H01', [P + 'rounded_rectangle', P + 'circle', P + 'line_to', P + 'close'])
def ready_paths(c):
    """The ready-made paths run through their corners with the given radius at each."""
    p = c.vec('p')
    x, y = c.xy(p)
    Path = c.cls(F + '.Path2D')
    r = c.real('r', pos=True)
    kind = c.choice('kind', 'rectangle', 'sharp', 'circle')
    if kind == 'circle':
        path, w, h = c.call(Path.circle, p, r), 2*r, 2*r
    else:
        w, h = c.real('w', pos=True), c.real('h', pos=True)
        path = c.call(Path.rounded_rectangle, p, w, h, r if kind == 'rectangle' else None)
    q = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    c.ensure('closed', path.is_closed is True and len(path) == 4)
    for i, part in enumerate(path):
        c.ensure_same('side', (c.xy(part.start_point), c.xy(part.stop_point)), (q[i], q[(i + 1) % 4]))
        c.ensure_same('radius', part.radius, None if kind == 'sharp' else r)
    c.ensure_same('point kept', c.xy(p), (x, y))

@contract('H01', [P + 'close', P + 'clone', F + ':LinearSegment.close', F + ':LinearSegment.points', F + ':LinearSegment.bulge_center', F + ':LinearSegment.bulge_geometry'],
          bounded='runs on the untouched code: closed paths of 3 to 30 rounded corners', concrete_only=True)
def rounded_many(c):
    """Every corner of a closed path of many corners is rounded with its own radius."""
    import math
    n = c.int('corners', 3, 30)
    o, turn = c.xy(c.vec('o')), c.choice('turn', 1, -1)
    if max(abs(x) for x in o) > 1e3:
        o = (1, 2)
    first = c.angle('g')
    spike = c.bool('star') and n > 5 and n % 2 == 0
    pts = []
    for k in range(n):
        a, d = math.radians(first) + turn*2*math.pi*k/n, 30 if spike and k % 2 else 100
        pts.append((o[0] + d*math.cos(a), o[1] + d*math.sin(a)))
    radii = [c.choice(f'r{k}', .5, 1, .25, None) for k in range(n)]
    path = c.cls(F + '.Path2D')(c.V(*pts[0]))
    for k in range(1, n):
        path.line_to(c.V(*pts[k]) if k % 2 else c.V(*sub(pts[k], pts[k - 1])), radii[k - 1] if k > 1 else None, bool(k % 2))
    path.close(radii[n - 1], radii[0])
    for q in (path, c.call(path.clone), c.call(path.transform, c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D').Identity(), clone=True)):
        c.ensure('parts', len(q) == n and q.is_closed)
        for k, part in enumerate(q):
            c.ensure_same('radius', part.radius, radii[k])
            if part.radius is None:
                c.ensure_same('sharp corner', c.xy(part.points[0]), pts[k])
                continue
            a, b, d = pts[k - 1], pts[k], pts[(k + 1) % n]
            u, lu = unit(c, sub(b, a))
            v, lv = unit(c, sub(d, b))
            h = cross(u, v)
            tangent(c, 'fillet', part, b, u, v, h, part.radius)
            c.ensure_same('side after', c.xy(part.points[0]), c.xy(part.bulge_stop_point))
            c.ensure_same('side before', c.xy(q[(k - 1) % n].points[-1]), c.xy(part.bulge_start_point))
