"""Plane vectors: V01 (algebra), V02 (metrics)."""

from dv.contract import contract, functional, DEGREES, REAL, POS, ANGLE, VEC, NVEC, BOOL, VecSort

M = 'Patro.GeometryEngine.Vector:'
B = M + 'Vector2DBase.'
F = M + 'Vector2DFloatBase.'
W = M + 'Vector2D.'

def dot(a, b):
    return a[0]*b[0] + a[1]*b[1]

def cross(a, b):
    return a[0]*b[1] - a[1]*b[0]

def nonnull(c, v):
    return c.or_(c.not_(exact_zero(c, v[0])), c.not_(exact_zero(c, v[1])))

def exact_zero(c, x):
    return x == 0

# ------------------------------------------------------------------ V01: construction and access

@contract('V01', [B + '__init__', B + '_check_arguments', B + 'x', B + 'y'])
def construction(c):
    """Every documented way to build a vector yields the given coordinates; the source is copied."""
    import numpy
    x, y = c.reals('x', 'y')
    form = c.choice('form', 'args', 'tuple', 'list', 'vector', 'generator-list', 'normalised')
    src = None
    if form == 'args':
        v = c.call(c.V, x, y)
    elif form == 'tuple':
        v = c.call(c.V, (x, y))
    elif form == 'list':
        src = [x, y]
        v = c.call(c.V, src)
    elif form == 'vector':
        src = c.V(x, y)
        v = c.call(c.V, src)
    elif form == 'normalised':
        v = c.call(c.cls('Patro.GeometryEngine.Vector.NormalisedVector2D'), (x, y))
    else:
        v = c.call(c.V.from_list, [(x, y), (y, x)])
        c.ensure('from_list length', len(v) == 2)
        c.vec_is('from_list second', v[1], y, x)
        v = v[0]
    c.vec_is('coordinates', v, x, y)
    c.ensure('index 0', c.eq(v[0], x))
    c.ensure('index 1', c.eq(v[1], y))
    c.ensure_same('iteration', tuple(v), (x, y))
    c.ensure('length', len(v) == 2)
    v.x = x + 1
    v.y = y - 2
    c.vec_is('setters', v, x + 1, y - 2)
    if form == 'list':
        c.ensure_same('source list kept', (src[0], src[1]), (x, y))
    if form == 'vector':
        c.vec_is('source vector kept', src, x, y)
    v[0] = y
    v[1] = x
    c.vec_is('item assignment', v, y, x)

@contract('V01', [B + '__init__'])
def construction_refused(c):
    """Anything but two coordinates is refused."""
    x, y, z = c.reals('x', 'y', 'z')
    k = c.choice('k', 0, 1, 2, 3, 4)
    args = ((), (x,), (x, y, z), ((x,),), ((x, y, z),))[k]
    c.ensure_raises('refused', (ValueError, TypeError), c.V, *args)

@contract('V01', [M + 'HomogeneousVector2D.__init__', M + 'HomogeneousVector2D.v', M + 'HomogeneousVector2D.to_vector'])
def homogeneous(c):
    """Homogeneous coordinates are (x, y, 1) and convert back without sharing storage."""
    H = c.cls('Patro.GeometryEngine.Vector.HomogeneousVector2D')
    u = c.vec('u')
    x, y = u.x, u.y
    h = c.call(H, u)
    c.ensure_same('coordinates', c.view(h.v), (x, y, 1))
    w = c.call(h.to_vector)
    c.ensure('type', type(w) is c.V)
    c.vec_is('back', w, x, y)
    c.fresh('homogeneous', w, u)

# ------------------------------------------------------------------ V01: pure operators

@functional('V01', B + 'clone', [VEC], VEC)
def clone(c, u):
    return u

@functional('V01', B + '__add__', [VEC, VEC], VEC)
def add(c, u, v):
    return (u[0] + v[0], u[1] + v[1])

@functional('V01', B + '__sub__', [VEC, VEC], VEC)
def sub(c, u, v):
    return (u[0] - v[0], u[1] - v[1])

@functional('V01', B + '__neg__', [VEC], VEC)
def neg(c, u):
    return (-u[0], -u[1])

@functional('V01', B + '__pos__', [VEC], VEC)
def pos(c, u):
    return u

@functional('V01', B + '__abs__', [VEC], VEC)
def absolute(c, u):
    return (abs(u[0]), abs(u[1]))

@functional('V01', B + '__eq__', [VEC, VEC], BOOL)
def equal(c, u, v):
    return c.and_(u[0] == v[0], u[1] == v[1])

@functional('V01', W + '__mul__', [VEC, REAL], VEC)
def mul(c, u, k):
    return (u[0]*k, u[1]*k)

@functional('V01', W + '__rmul__', [VEC, REAL], VEC)
def rmul(c, u, k):
    return (u[0]*k, u[1]*k)

@functional('V01', W + '__truediv__', [VEC, REAL], VEC, requires=lambda c, u, k: c.not_(k == 0))
def div(c, u, k):
    return (u[0]/k, u[1]/k)

@functional('V01', M + 'NormalisedVector2D.__mul__', [NVEC, REAL], NVEC)
def nmul(c, u, k):
    return (u[0]*k, u[1]*k)

@functional('V01', M + 'NormalisedVector2D.__rmul__', [NVEC, REAL], NVEC)
def nrmul(c, u, k):
    return (u[0]*k, u[1]*k)

@functional('V01', W + 'scale', [VEC, REAL, REAL], VEC)
def scale(c, u, a, b):
    return (u[0]*a, u[1]*b)

@functional('V01', W + 'divide', [VEC, REAL, REAL], VEC,
            requires=lambda c, u, a, b: c.and_(c.not_(a == 0), c.not_(b == 0)))
def divide(c, u, a, b):
    return (u[0]/a, u[1]/b)

@functional('V01', F + 'normal', [VEC], VEC)
def normal(c, u):
    return (-u[1], u[0])

@functional('V01', F + 'anti_normal', [VEC], VEC)
def anti_normal(c, u):
    return (u[1], -u[0])

@functional('V01', F + 'permute', [VEC], VEC)
def permute(c, u):
    return (u[1], u[0])

@functional('V01', F + 'parity', [VEC], VEC)
def parity(c, u):
    return (-u[0], -u[1])

@functional('V01 V02', F + 'dot', [VEC, VEC], REAL)
def dot_(c, u, v):
    return dot(u, v)

@functional('V01 V02', F + 'cross', [VEC, VEC], REAL)
def cross_(c, u, v):
    return cross(u, v)

@functional('V01', F + 'rotate', [VEC, ANGLE], VEC)
def rotate(c, u, a):
    C, S = c.cosd(a), c.sind(a)
    return (C*u[0] - S*u[1], S*u[0] + C*u[1])

@contract('V01', [F + 'rotate'])
def rotate_clockwise(c):
    """A clockwise rotation undoes the counter clockwise one; both keep the magnitude."""
    u = c.vec('u')
    a = c.angle('a')
    ccw = c.bool('ccw')
    C, S = c.cosd(a), c.sind(a)
    if not ccw:
        S = -S
    fr = c.frame(u)
    r = c.call(u.rotate, a, ccw)
    c.vec_is('rotation', r, C*u.x - S*u.y, S*u.x + C*u.y)
    back = c.call(r.rotate, a, not ccw)
    c.vec_is('inverse', back, u.x, u.y)
    c.ensure('isometry', c.eq(r.x*r.x + r.y*r.y, u.x*u.x + u.y*u.y, order=2))
    fr()
    c.fresh('rotate', r, u)

@functional('V01', W + 'middle', [VEC, VEC], VEC)
def middle(c, u, v):
    return ((u[0] + v[0])/2, (u[1] + v[1])/2)

@contract('V01', [B + '__iadd__', B + '__isub__', W + '__imul__', W + '__itruediv__', W + 'normalise'])
def in_place(c):
    """In-place operators change the left operand only, and return it."""
    u, v = c.vecs('u', 'v')
    k = c.real('k', nonzero=True)
    x, y, p, q = u.x, u.y, v.x, v.y
    op = c.choice('op', '+=', '-=', '*=', '/=', '+= self', '-= self')
    w = u
    before = c.V(u)
    if op == '+=':
        w += v
        c.vec_is('sum', w, x + p, y + q)
    elif op == '-=':
        w -= v
        c.vec_is('difference', w, x - p, y - q)
    elif op == '*=':
        w *= k
        c.vec_is('product', w, x*k, y*k)
    elif op == '/=':
        w /= k
        c.vec_is('quotient', w, x/k, y/k)
    elif op == '+= self':
        w += u
        c.vec_is('double', w, 2*x, 2*y)
    else:
        w -= u
        c.vec_is('null', w, 0, 0)
    c.ensure('same object', w is u)
    c.vec_is('right operand', v, p, q)
    c.vec_is('earlier copy', before, x, y)

@contract('V01', [W + 'middle', B + '__add__', B + '__sub__', W + '__mul__', W + '__truediv__', W + '__rmul__', B + '__neg__'],
          inline=True)
def vector_space(c):
    """Vector space laws on expressions built from the operators (lemma over the operator contracts)."""
    u, v, w = c.vecs('u', 'v', 'w')
    a, b = c.reals('a', 'b')
    fr = c.frame(u, v, w)
    c.ensure_same('associative', c.view((u + v) + w), c.view(u + (v + w)))
    c.ensure_same('distributive', c.view(a*(u + v)), c.view(u*a + v*a))
    c.ensure_same('scalars', c.view((a*b)*u), c.view(a*(b*u)))
    c.ensure_same('difference', c.view(u - v), c.view(u + -v))
    c.ensure_same('null', c.view(u - u), (0, 0))
    fr()

@contract('V01', [M + 'Vector2DInt', W + 'rint', B + 'to_int_list'])
def integer_vectors(c):
    """Rounding to the nearest integers, truncation to integers."""
    u = c.vec('u')
    c.robust(*[x*2 - round(x*2) for x in c.view(u)] if not c.symbolic else [])
    fr = c.frame(u)
    r = c.call(u.rint)
    for a, b in zip(c.view(r), c.view(u)):
        c.ensure('nearest', c.and_(c.le(a - b, c.q(1, 2)), c.le(b - a, c.q(1, 2))))
        c.ensure('integer', not c.symbolic and a == int(a) or c.symbolic)
    t = c.call(u.to_int_list)
    for a, b in zip(t, c.view(u)):
        c.ensure('truncation', c.and_(c.lt(abs(a - b), 1), c.le(abs(a), abs(b)), c.le(0, a*b)))
    fr()

# ------------------------------------------------------------------ V02: metrics

@functional('V02', F + 'magnitude_square', [VEC], REAL)
def magnitude_square(c, u):
    return dot(u, u)

@functional('V02', F + 'magnitude', [VEC], REAL)
def magnitude(c, u):
    return c.sqrt(dot(u, u))

@functional('V02', F + 'tan', [VEC], REAL, requires=lambda c, u: c.not_(u[0] == 0))
def tan(c, u):
    return u[1]/u[0]

@functional('V02', F + 'inverse_tan', [VEC], REAL, requires=lambda c, u: c.not_(u[1] == 0))
def inverse_tan(c, u):
    return u[0]/u[1]

@functional('V02', F + 'projection_on', [VEC, VEC], REAL, requires=lambda c, u, d: nonnull(c, d))
def projection_on(c, u, d):
    return dot(u, d)/c.sqrt(dot(d, d))

@functional('V02', F + 'deviation_with', [VEC, VEC], REAL, requires=lambda c, u, d: nonnull(c, d))
def deviation_with(c, u, d):
    return cross(d, u)/c.sqrt(dot(d, d))

@functional('V02', F + 'cos_with', [VEC, VEC], REAL, requires=lambda c, u, d: c.and_(nonnull(c, u), nonnull(c, d)))
def cos_with(c, u, d):
    return dot(u, d)/(c.sqrt(dot(d, d))*c.sqrt(dot(u, u)))

@functional('V02', F + 'sin_with', [VEC, VEC], REAL, requires=lambda c, u, d: c.and_(nonnull(c, u), nonnull(c, d)))
def sin_with(c, u, d):
    return cross(d, u)/(c.sqrt(dot(d, d))*c.sqrt(dot(u, u)))

@contract('V02', [W + 'normalise', W + 'to_normalised'])
def normalise(c):
    """Normalising gives the unit vector of the same direction."""
    u = c.vec('u')
    x, y = u.x, u.y
    c.assume(nonnull(c, (x, y)))
    c.robust(x, y)
    m = c.sqrt(x*x + y*y)
    fr = c.frame(u)
    n = c.call(u.to_normalised)
    c.vec_is('unit', n, x/m, y/m)
    c.ensure('unit length', c.eq(n.magnitude, 1))
    c.fresh('to_normalised', n, u)
    fr()
    r = c.call(u.normalise)
    c.ensure('in place', r is u)
    c.vec_is('normalise', u, x/m, y/m)

@contract('V02', [F + 'projection_on', F + 'deviation_with'])
def rebuild(c):
    """Projection and deviation with respect to a direction rebuild the vector."""
    u, d = c.vecs('u', 'd')
    c.assume(nonnull(c, c.xy(d)))
    c.robust(d.x, d.y)
    m = c.sqrt(d.x*d.x + d.y*d.y)
    p, q = c.call(u.projection_on, d), c.call(u.deviation_with, d)
    c.ensure('x', c.eq(p*d.x/m - q*d.y/m, u.x))
    c.ensure('y', c.eq(p*d.y/m + q*d.x/m, u.y))

@functional('V02', F + 'angle_with', [VEC, VEC], DEGREES, robust=lambda u, d: u + d,
            requires=lambda c, u, d: c.and_(nonnull(c, u), nonnull(c, d)))
def angle_with(c, u, d):
    """The signed angle in (-180, 180] turns the direction onto the vector."""
    return c.atan2d(cross(d, u), dot(u, d))

@functional('V02', F + 'orientation', [VEC], DEGREES, robust=lambda u: u, requires=lambda c, u: nonnull(c, u))
def orientation(c, u):
    """The orientation is the polar angle in degree, in (-180, 180]."""
    return c.atan2d(u[1], u[0])

@contract('V02', [F + 'is_parallel', F + 'is_orthogonal'])
def parallel(c):
    """Parallel and orthogonal answers are symmetric, true for exact configurations, false beyond the tolerance."""
    u, v = c.vecs('u', 'v')
    fr = c.frame(u, v)
    p, q = c.call(u.is_parallel, v), c.call(v.is_parallel, u)
    o, s = c.call(u.is_orthogonal, v), c.call(v.is_orthogonal, u)
    p, q, o, s = bool(p), bool(q), bool(o), bool(s)
    cr, dt = cross(c.xy(u), c.xy(v)), dot(c.xy(u), c.xy(v))
    eps = c.q(1, 10**6)
    if cr == 0:
        c.ensure('parallel', p and q)
    elif abs(cr) > eps:
        c.ensure('not parallel', not p and not q)
    if dt == 0:
        c.ensure('orthogonal', o and s)
    elif abs(dt) > eps:
        c.ensure('not orthogonal', not o and not s)
    t, k = c.call(u.is_parallel, v, True)
    c.ensure('cross value', c.eq(k, cr, order=2))
    c.ensure('cross test', bool(t) == p)
    fr()

@functional('V02', W + 'from_angle', [ANGLE], VEC)
def from_angle(c, a):
    return (c.cosd(a), c.sind(a))

@functional('V02', W + 'from_polar', [REAL, ANGLE], VEC)
def from_polar(c, r, a):
    return (r*c.cosd(a), r*c.sind(a))

@functional('V02', W + 'from_ellipse', [REAL, REAL, ANGLE], VEC)
def from_ellipse(c, rx, ry, a):
    return (rx*c.cosd(a), ry*c.sind(a))

@contract('V02', [F + 'almost_equal'])
def almost_equal(c):
    """Equal vectors are almost equal; vectors apart are not."""
    u, v = c.vecs('u', 'v')
    r = bool(c.call(u.almost_equal, v))
    if u.x == v.x and u.y == v.y:
        c.ensure('reflexive', r)
    if abs(u.x - v.x) > c.q(1, 10) + abs(v.x)/1000 or abs(u.y - v.y) > c.q(1, 10) + abs(v.y)/1000:
        c.ensure('apart', not r)
