"""Sketches of a pattern (P01).

The points an operation starts from are arbitrary (single points whose coordinates are measured values), so each contract is about
one operation with arbitrary points behind it."""

from dv.contract import contract

P = 'Patro.Pattern.Pattern'
S = 'Patro.Pattern.Sketch'
O = 'Patro.Pattern.SketchOperation'
C = 'Patro.Pattern.Calculator'
M = 'Patro.Measurement.ValentinaMeasurement'

COMMON = [f'{S}:Sketch.eval', f'{S}:Sketch._add_operation', f'{S}:Sketch.get_operation', f'{O}:SketchOperation.__init__',
          f'{O}:SketchOperation._get_operation', f'{O}:SketchOperation._connect_ancestor',
          f'{O}:SketchOperation.connect_ancestor_for_expressions', f'{O}:SketchOperation.eval', f'{O}:Point.__init__',
          f'{O}:Point.vector', f'{O}:Point.name', f'{C}:Calculator.__init__', f'{C}:Calculator.add_point', f'{C}:Expression._compile',
          f'{C}:Expression.eval', f'{C}:Expression.value', f'{C}:NodeVisitor.visit_Call']

class Fixture:

    """A sketch with some points at arbitrary places and some measured lengths."""

    def __init__(self, c, points='AB', values='l', **more):
        c.messages_only()
        c.mod('Patro.Pattern')
        self.c = c
        self.offset = c.V(0, 0)
        measurements = c.mod(M).ValentinaMeasurements()
        self.at, self.v = {}, {}
        for p in points:
            x, y = c.real('x' + p), c.real('y' + p)
            self.at[p] = (x, y)
            measurements.add('x_' + p, x)
            measurements.add('y_' + p, y)
        for n in values:
            self.v[n] = c.real(n)
            measurements.add(n, self.v[n])
        for n, x in more.items():
            measurements.add(n, x)
        self.pattern = c.mod(P).Pattern(measurements, 'cm')
        self.sketch = self.pattern.add_scope('piece').sketch
        self.points = points
        self.ops = {p: self.sketch.SinglePoint(p, 'x_' + p, 'y_' + p, self.offset) for p in points}

    def add(self, cls, *args, **kw):
        """an operation, its points given by name, identifier or operation"""
        how = self.c.choice('reference', 'name', 'id', 'operation')
        def refer(x):
            if x in self.ops if isinstance(x, str) else False:
                return x if how == 'name' else self.ops[x].id if how == 'id' else self.ops[x]
            return x
        keys = ('first_point', 'second_point', 'base_point', 'center', 'point1_line1', 'point2_line1', 'point1_line2', 'point2_line2')
        kw = {k: refer(v) if k in keys else v for k, v in kw.items()}
        return self.c.call(getattr(self.sketch, cls), *args, **kw)

    def vec(self, p, q):
        (a, b), (x, y) = self.at[p], self.at[q]
        return x - a, y - b

    def distance(self, p, q):
        x, y = self.vec(p, q)
        return self.c.sqrt(x*x + y*y)

    def evaluate(self):
        self.c.call(self.sketch.eval)
        self.kept()

    def kept(self):
        c = self.c
        for p in self.points:
            c.ensure_same(f'point {p} stays', c.xy(self.ops[p].vector), self.at[p])

    def apart(self, p, q):
        x, y = self.vec(p, q)
        self.c.assume((x != 0) | (y != 0) if self.c.symbolic else abs(x) + abs(y) > 1e-3)

    def dependencies(self, op, names):
        c = self.c
        want = [self.ops[n] for n in names]
        c.ensure('dependencies', len(op.dependencies) == len(want) and all(any(d is w for d in op.dependencies) for w in want))
        node = op._dag_node
        c.ensure('ancestors', sorted(n.data.id for n in node.ancestors) == sorted(w.id for w in want))
        c.ensure('registered', self.sketch.get_operation(op.id) is op)
        if hasattr(op, 'name'):
            c.ensure('registered by name', self.sketch.get_operation(op.name) is op)

def dot(a, b):
    return a[0]*b[0] + a[1]*b[1]

def cross(a, b):
    return a[0]*b[1] - a[1]*b[0]

# a length: text, meaning, points the text refers to
def lengths(c, f, current=True):
    l = [('l', lambda: f.v['l'], ''), ('2*l + 1', lambda: 2*f.v['l'] + 1, ''), ('3.5', lambda: c.q(7, 2), ''),
         ('Line_A_B', lambda: f.distance('A', 'B'), 'AB'), ('Line_C_D/2', lambda: f.distance('C', 'D')/2, 'CD'),
         ('l - Line_C_A', lambda: f.v['l'] - f.distance('C', 'A'), 'CA'),
         ('(Line_A_C+Line_C_D)*3', lambda: 3*(f.distance('A', 'C') + f.distance('C', 'D')), 'ACD')]
    if current:
        l += [('CurrentLength', lambda: f.distance('A', 'B'), ''), ('CurrentLength/3 + l', lambda: f.distance('A', 'B')/3 + f.v['l'], ''),
              ('CurrentLength - Line_D_A', lambda: f.distance('A', 'B') - f.distance('D', 'A'), 'DA')]
    return c.choice('length', *l)

def union(*names):
    return sorted(set(''.join(names)))

@contract('P01', COMMON + [f'{O}:SinglePoint.__init__', f'{O}:SinglePoint.eval_internal', f'{O}:Point.geometry'], bounded='formulas of the operations from lists; coordinates and values of the measurements arbitrary')
def single_point(c):
    """A single point has the coordinates given, as numbers or expressions."""
    f = Fixture(c, 'AB', 'l')
    x, fx, dx = c.choice('x', ('x_A', lambda: f.at['A'][0], ''), (3, lambda: 3, ''), (-1.5, lambda: c.q(-3, 2), ''), ('-l/2', lambda: -f.v['l']/2, ''))
    y, fy, dy = c.choice('y', ('y_B + l', lambda: f.at['B'][1] + f.v['l'], ''), (0, lambda: 0, ''), ('2*Line_A_B', lambda: 2*f.distance('A', 'B'), 'AB'))
    p = f.add('SinglePoint', 'P', x, y, f.offset)
    f.evaluate()
    c.ensure_same('position', c.xy(p.vector), (fx(), fy()))
    f.dependencies(p, union(dx, dy))
    g = p.geometry()
    c.ensure_same('geometry', c.xy(g), (fx(), fy()))
    g.x = g.x + 1
    c.ensure_same('geometry is a copy', c.xy(p.vector), (fx(), fy()))
    c.ensure('label', p.name == 'P' and p.label_offset is f.offset)

@contract('P01', COMMON + [f'{O}:AlongLinePoint.__init__', f'{O}:AlongLinePoint.eval_internal', f'{C}:Calculator._function_Line', f'{C}:Calculator._function_CurrentLength',
                           f'{C}:Calculator.set_current_segment', f'{C}:Calculator.unset_current_segment'], bounded='formulas of the operations from lists; coordinates and values of the measurements arbitrary')
def along_line(c):
    """At a length from the first point towards the second one."""
    f = Fixture(c, 'ABCD', 'l')
    f.apart('A', 'B')
    text, length, names = lengths(c, f)
    p = f.add('AlongLinePoint', 'P', first_point='A', second_point='B', length=text, label_offset=f.offset)
    f.evaluate()
    x, y = c.xy(p.vector)
    d, u = (x - f.at['A'][0], y - f.at['A'][1]), f.vec('A', 'B')
    c.ensure('on the line', c.eq(cross(u, d), 0))
    c.ensure('at the length', c.eq(dot(u, d), length()*f.distance('A', 'B')))
    f.dependencies(p, union('AB', names))

@contract('P01', COMMON + [f'{O}:EndLinePoint.__init__', f'{O}:EndLinePoint.eval_internal'], bounded='formulas of the operations from lists; coordinates and values of the measurements arbitrary')
def end_line(c):
    """At an angle and a length from a point."""
    f = Fixture(c, 'ABCD', 'l', a=c.angle('a'))
    text, length, names = lengths(c, f, current=False)
    angle, ca, sa = c.choice('angle', ('a', 1, 0), (90, 0, 1), ('180', -1, 0), (0, 1, 0), (270, 0, -1))
    p = f.add('EndLinePoint', 'P', base_point='A', angle=angle, length=text, label_offset=f.offset)
    if angle == 'a':
        v = f.sketch.calculator.cache['a']
        ca, sa = c.cosd(v), c.sind(v)
    f.evaluate()
    x, y = c.xy(p.vector)
    c.ensure_same('position', (x, y), (f.at['A'][0] + ca*length(), f.at['A'][1] + sa*length()))
    f.dependencies(p, union('A', names))

@contract('P01', COMMON + [f'{C}:Calculator._function_AngleLine', f'{C}:Calculator._function_Line'], bounded='formulas of the operations from lists; coordinates and values of the measurements arbitrary')
def line_functions(c):
    """AngleLine is the direction and Line the length from a point to another: from the first they lead to the second."""
    f = Fixture(c, 'ABCD', 'l')
    f.apart('A', 'B')
    if not c.symbolic:
        c.assume(f.distance('A', 'B') > 1e-2)
    which = c.choice('axis', 'x', 'y', 'any')
    u = f.vec('A', 'B')
    if which != 'any':
        c.assume(u[which == 'x'] == 0)
    text = c.choice('length', 'Line_A_B', 'l', 'Line_B_D')
    p = f.add('EndLinePoint', 'P', base_point='C', angle='AngleLine_A_B', length=text, label_offset=f.offset)
    f.evaluate()
    x, y = c.xy(p.vector)
    v = x - f.at['C'][0], y - f.at['C'][1]
    if text == 'Line_A_B':
        c.ensure_same('position', v, u)
    else:
        length = f.v['l'] if text == 'l' else f.distance('B', 'D')
        c.ensure('direction', c.eq(cross(u, v), 0))
        c.ensure('length', c.eq(dot(u, v), length*f.distance('A', 'B')))
    f.dependencies(p, 'ABCD' if text == 'Line_B_D' else 'ABC')

@contract('P01', COMMON + [f'{O}:LineIntersectPoint.__init__', f'{O}:LineIntersectPoint.eval_internal'])
def line_intersect(c):
    """The common point of two lines."""
    f = Fixture(c, 'ABCD', '')
    u, v = f.vec('A', 'B'), f.vec('C', 'D')
    k = cross(u, v)
    c.robust(k, tol=1e-3)
    p = f.add('LineIntersectPoint', 'P', point1_line1='A', point2_line1='B', point1_line2='C', point2_line2='D', label_offset=f.offset)
    f.evaluate()
    if p.vector is None:
        c.ensure('parallel lines', c.le(abs(k), c.q(1, 10**6)))
        return
    x, y = c.xy(p.vector)
    c.ensure('on the first line', c.eq(cross(u, (x - f.at['A'][0], y - f.at['A'][1])), 0))
    c.ensure('on the second line', c.eq(cross(v, (x - f.at['C'][0], y - f.at['C'][1])), 0))
    f.dependencies(p, 'ABCD')

@contract('P01', COMMON + [f'{O}:NormalPoint.__init__', f'{O}:NormalPoint.eval_internal', f'{C}:Calculator._function_CurrentLength'], bounded='formulas of the operations from lists; coordinates and values of the measurements arbitrary')
def normal(c):
    """At a length from the first point along the normal of the line, turned by an angle."""
    f = Fixture(c, 'ABCD', 'l', a=c.angle('a'))
    f.apart('A', 'B')
    text, length, names = lengths(c, f)
    angle, ca, sa = c.choice('angle', ('a', 1, 0), (0, 1, 0), (90, 0, 1), ('180', -1, 0))
    p = f.add('NormalPoint', 'P', first_point='A', second_point='B', angle=angle, length=text, label_offset=f.offset)
    if angle == 'a':
        v = f.sketch.calculator.cache['a']
        ca, sa = c.cosd(v), c.sind(v)
    f.evaluate()
    x, y = c.xy(p.vector)
    dx, dy = f.vec('A', 'B')
    nx, ny = -dy, dx
    r, k = f.distance('A', 'B'), length()
    c.ensure_same('position', (r*(x - f.at['A'][0]), r*(y - f.at['A'][1])), (k*(ca*nx - sa*ny), k*(sa*nx + ca*ny)))
    f.dependencies(p, union('AB', names))

@contract('P01', COMMON + [f'{O}:PointOfIntersection.__init__', f'{O}:PointOfIntersection.eval_internal'])
def point_of_intersection(c):
    """The abscissa of the first point and the ordinate of the second one."""
    f = Fixture(c, 'AB', '')
    p = f.add('PointOfIntersection', 'P', first_point='A', second_point='B', label_offset=f.offset)
    f.evaluate()
    c.ensure_same('position', c.xy(p.vector), (f.at['A'][0], f.at['B'][1]))
    f.dependencies(p, 'AB')

@contract('P01', COMMON + [f'{O}:PointOfContact.__init__', f'{O}:PointOfContact.eval_internal'])
def point_of_contact(c):
    """On the circle and on the line, and on the segment if a common point is.

    Circle2D.intersect_segment stands by its contract (C01): the common points of the circle and the line, if any."""
    import contextlib
    import io
    f = Fixture(c, 'ABC', '', r=c.real('r', pos=True))
    f.apart('A', 'B')
    u = f.vec('A', 'B')
    r = f.sketch.calculator.cache['r']
    a, b, o = f.at['A'], f.at['B'], f.at['C']
    oa, ob = f.vec('C', 'A'), f.vec('C', 'B')
    k, uu, rr = cross(oa, u), dot(u, u), r*r
    da, db = dot(oa, oa), dot(ob, ob)
    where = c.choice('line', 'one end inside', 'the other inside', 'secant', 'tangent', 'away')
    p = f.add('PointOfContact', 'P', first_point='A', second_point='B', center='C', radius=c.choice('radius', 'r', '2*r/2'), label_offset=f.offset)
    module = c.mod(O)
    calls = []
    if c.symbolic:
        if where in ('one end inside', 'the other inside', 'secant'):
            t = c.real('t0'), c.real('t1')
            # f(t) = |A + t u - C|^2 - r^2
            g = [da + 2*x*dot(oa, u) + x*x*uu - rr for x in t]
            points = [(a[0] + x*u[0], a[1] + x*u[1]) for x in t]
            if where == 'secant':
                c.assume(g[0] == 0, g[1] == 0)
            else:
                first = c.choice('first', 0, 1)
                i, j = t[first], t[1 - first]
                # f is positive at an end and negative at the other one: one root between, the other on the side of the inner end
                lemma(c)
                c.assume(g[0] == 0, g[1] == 0, i > 0, i < 1, j < 0 if where == 'one end inside' else j > 1)
        elif where == 'tangent':
            t = c.real('t0')
            points = (a[0] + t*u[0], a[1] + t*u[1])
            c.assume(da + 2*t*dot(oa, u) + t*t*uu == rr)
        else:
            points = None
        class Circle(module.Circle2D):
            def intersect_segment(self, segment):
                calls.append((c.xy(self.center), self.radius, c.xy(segment.p0), c.xy(segment.p1)))
                return None if points is None else c.V(*points) if isinstance(points, tuple) else tuple(c.V(*x) for x in points)
        original = module.Circle2D
        module.Circle2D = Circle
    else:
        if where == 'one end inside':
            c.assume(da*1.01 < rr and db > rr*1.01)
        elif where == 'the other inside':
            c.assume(db*1.01 < rr and da > rr*1.01)
        elif where == 'secant':
            c.assume(k*k < .99*rr*uu and uu > 1e-2 and r > 1e-2)
        elif where == 'away':
            c.assume(k*k > 1.01*rr*uu and r > 1e-2)
        else:
            c.assume(k*k == rr*uu)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            c.call(f.sketch.eval)
    finally:
        if c.symbolic:
            module.Circle2D = original
    f.kept()
    if c.symbolic:
        if not calls:
            c.not_applicable('the common points are found otherwise')
            return
        c.ensure_same('circle and line', calls[0], (o, r, a, b))
    f.dependencies(p, 'ABC')
    if where == 'away':
        c.ensure('no point', p.vector is None)
        return
    x, y = c.xy(p.vector)
    v = x - a[0], y - a[1]
    c.ensure('on the circle', c.eq((x - o[0])*(x - o[0]) + (y - o[1])*(y - o[1]), rr))
    c.ensure('on the line', c.eq(cross(u, v), 0))
    if 'inside' in where:
        e = c.q(1, 10**6)*f.distance('A', 'B')
        c.ensure('on the segment', c.and_(c.ge(dot(u, v), -e), c.le(dot(u, v), uu + e)))

def lemma(c):
    """f(t) = d + 2 e t + n t^2, n > 0, f(0) < 0 < f(1), f(i) = f(j) = 0, i > j: then j < 0 < i < 1; and the other way round
    by t -> 1 - t"""
    n, i, j = c.reals('n!', 'i!', 'j!')
    # n i j = d and n (1 - i)(1 - j) = f(1), by the polynomial n (t - i)(t - j)
    c.ensure('roots: the sign at 0', c.implies(c.and_(n > 0, n*i*j < 0, i > j), c.and_(j < 0, i > 0)))
    c.ensure('roots: the sign at 1', c.implies(c.and_(n > 0, n*(1 - i)*(1 - j) > 0, j < 0), i < 1))

@contract('P01', COMMON + [f'{O}:Line.__init__', f'{O}:Line.geometry'])
def line(c):
    """A line runs from the first point to the second one."""
    f = Fixture(c, 'AB', '')
    op = f.add('Line', first_point='A', second_point='B')
    f.evaluate()
    g = op.geometry()
    c.ensure_same('ends', (c.xy(g.p0), c.xy(g.p1)), (f.at['A'], f.at['B']))
    f.dependencies(op, 'AB')

@contract('P01', COMMON + [f'{O}:SimpleInteractiveSpline.{n}' for n in ('__init__', 'eval_internal', 'geometry', 'control_point1', 'control_point2')], bounded='formulas of the operations from lists; coordinates and values of the measurements arbitrary')
def spline(c):
    """A curve between two points, its control points at the angles and lengths given."""
    f = Fixture(c, 'ABC', 'lk', a=c.angle('a'), b=c.angle('b'))
    l1, m1, d1 = c.choice('length1', ('l', lambda: f.v['l'], ''), ('Line_A_C', lambda: f.distance('A', 'C'), 'AC'), (2, lambda: 2, ''))
    l2, m2, d2 = c.choice('length2', ('k', lambda: f.v['k'], ''), ('Line_A_B/2', lambda: f.distance('A', 'B')/2, 'AB'))
    op = f.add('SimpleInteractiveSpline', first_point='A', second_point='B', angle1='a', length1=l1, angle2='b', length2=l2)
    c.ensure_raises('not evaluated', NameError, op.geometry)
    f.evaluate()
    cache = f.sketch.calculator.cache
    A, B = f.at['A'], f.at['B']
    a, b = cache['a'], cache['b']
    p1 = (A[0] + c.cosd(a)*m1(), A[1] + c.sind(a)*m1())
    p2 = (B[0] + c.cosd(b)*m2(), B[1] + c.sind(b)*m2())
    c.ensure_same('control points', (c.xy(op.control_point1), c.xy(op.control_point2)), (p1, p2))
    g = op.geometry()
    c.ensure_same('curve', tuple(c.xy(p) for p in g.points), (A, p1, p2, B))
    f.dependencies(op, union('AB', d1, d2))

@contract('P01', COMMON)
def sequence(c):
    """Operations built on operations, evaluated in the order they were added; twice gives the same."""
    f = Fixture(c, 'AB', 'l')
    s = f.sketch
    f.apart('A', 'B')
    l = f.v['l']
    p = s.PointOfIntersection('P', 'A', 'B', f.offset)
    q = s.EndLinePoint('Q', base_point=p, angle=90, length='l', label_offset=f.offset)
    d = s.Line('P', 'Q')
    r = s.AlongLinePoint('R', first_point='A', second_point='B', length='Line_P_Q', label_offset=f.offset) if c.bool('more') else None
    for i in range(c.choice('times', 1, 2)):
        c.call(s.eval)
        f.kept()
        P, Q = (f.at['A'][0], f.at['B'][1]), (f.at['A'][0], f.at['B'][1] + l)
        c.ensure_same('P', c.xy(p.vector), P)
        c.ensure_same('Q', c.xy(q.vector), Q)
        g = d.geometry()
        c.ensure_same('line', (c.xy(g.p0), c.xy(g.p1)), (P, Q))
        if r is not None:
            x, y = c.xy(r.vector)
            u, v = f.vec('A', 'B'), (x - f.at['A'][0], y - f.at['A'][1])
            c.ensure('R on the line', c.eq(cross(u, v), 0))
            c.ensure('R at the length', c.eq(dot(u, v), f.distance('A', 'B')*c.abs(l)))
    if r is not None:
        f.ops.update(P=p, Q=q)
        f.dependencies(r, 'ABPQ')
    order = [n.data for n in s.calculator.dag.topological_sort()]
    c.ensure('order', len(order) == len(s.operations) and all(
        order.index(x) < order.index(o) for o in s.operations for x in o.dependencies) or all(
        order.index(x) > order.index(o) for o in s.operations for x in o.dependencies))

@contract('P01', [f'{S}:Sketch.bounding_box'])
def bounding_box(c):
    """The box of a sketch is the smallest one that holds the points, the ends and the control points."""
    c.single_extrema()
    f = Fixture(c, 'AB', '')
    s = f.sketch
    points = [f.at['A'], f.at['B']]
    kind = c.choice('kind', 'points', 'line', 'curve')
    if kind == 'line':
        s.Line('A', 'B')
    elif kind == 'curve':
        s.SimpleInteractiveSpline('A', 'B', 0, 3, 90, 2)
        points += [(f.at['A'][0] + 3, f.at['A'][1]), (f.at['B'][0], f.at['B'][1] + 2)]
    c.call(s.eval)
    for i in range(2):
        b = c.call(lambda: s.bounding_box)
        for k, interval in enumerate((b.x, b.y)):
            v = [p[k] for p in points]
            c.ensure(f'low {k}', c.and_(*[c.le(interval.inf, x) for x in v]), )
            c.ensure(f'high {k}', c.and_(*[c.ge(interval.sup, x) for x in v]))
            c.ensure(f'smallest {k}', c.and_(c.or_(*[c.eq(interval.inf, x) for x in v]), c.or_(*[c.eq(interval.sup, x) for x in v])))
        f.kept()
