"""Plane transformations (T01).

A transformation is *sound* when its recorded kind describes its matrix.  Soundness is shown for every constructor and
is preserved by composition, so it holds for every transformation any history of public operations can build."""

from dv.contract import contract
from contracts.vector import dot

M = 'Patro.GeometryEngine.Transformation:'
PATH = 'Patro.GeometryEngine.Transformation.'

KINDS = ('Identity', 'Scale', 'Shear', 'Parity', 'XParity', 'YParity', 'Rotation', 'Translation', 'Generic')

def kind(c, name):
    return getattr(c.cls(PATH + 'TransformationType'), name)

def matrix(c, t):
    """(a, b, tx, c, d, ty) of a transformation, whatever its size"""
    m = t.array
    if t.size == 2:
        return (m[0, 0], m[0, 1], 0, m[1, 0], m[1, 1], 0)
    return tuple(m[i, j] for i in (0, 1) for j in (0, 1, 2))

def transformation(c, name, affine, kinds=KINDS):
    """an arbitrary sound transformation"""
    ks = [k for k in kinds if affine or k != 'Translation']
    k = c.choice(name + '.kind', *ks)
    a, b, d, e, x, y = 1, 0, 0, 1, 0, 0
    if k == 'Scale':
        a = e = c.real(name + '.s')
    elif k == 'Shear':
        a, e = c.real(name + '.sx'), c.real(name + '.sy')
    elif k == 'Parity':
        a = e = -1
    elif k == 'XParity':
        a = -1
    elif k == 'YParity':
        e = -1
    elif k == 'Rotation':
        g = c.angle(name + '.angle')
        a, b, d, e = c.cosd(g), -c.sind(g), c.sind(g), c.cosd(g)
    elif k == 'Translation':
        x, y = c.real(name + '.tx'), c.real(name + '.ty')
    elif k == 'Generic':
        a, b, d, e = c.reals(name + '.a', name + '.b', name + '.d', name + '.e')
        if affine:
            x, y = c.real(name + '.tx'), c.real(name + '.ty')
    if affine:
        l = [a, b, x, d, e, y, 0, 0, 1]
        cls = c.cls(PATH + 'AffineTransformation2D')
    else:
        l = [a, b, d, e]
        cls = c.cls(PATH + 'Transformation2D')
    if k == 'Generic' and affine:
        t = cls.Screen(0)
        for i in range(3):
            for j in range(3):
                t.array[i, j] = l[3*i+j]
    else:
        t = cls(l, kind(c, k))
    if k == 'Generic':
        # the other kinds are covered by their own case
        c.assume(t.type is kind(c, k))
    return t, (a, b, x, d, e, y)

def ensure_sound(c, label, t):
    """the recorded kind describes the matrix"""
    a, b, x, d, e, y = matrix(c, t)
    k = t.type.name
    label = f'{label}: kind describes the map'
    def zero(*xs):
        for i, v in enumerate(xs):
            c.ensure(label, c.eq(v, 0, order=2))
    def one(*xs):
        for v in xs:
            c.ensure(label, c.eq(v, 1, order=2))
    c.ensure(label, k in KINDS)
    if k != 'Generic' and k != 'Translation':
        zero(x, y)
    if k in ('Identity', 'Translation'):
        zero(b, d)
        one(a, e)
    elif k == 'Scale':
        zero(b, d, a - e)
    elif k == 'Shear':
        zero(b, d)
    elif k == 'Parity':
        zero(b, d)
        one(-a, -e)
    elif k == 'XParity':
        zero(b, d)
        one(-a, e)
    elif k == 'YParity':
        zero(b, d)
        one(a, -e)
    elif k == 'Rotation':
        zero(a - e, b + d)
        one(a*a + d*d)
    if t.size == 3:
        m = t.array
        zero(m[2, 0], m[2, 1])
        one(m[2, 2])

def product(m, n):
    a, b, x, d, e, y = m
    A, B, X, D, E, Y = n
    return (a*A + b*D, a*B + b*E, a*X + b*Y + x, d*A + e*D, d*B + e*E, d*X + e*Y + y)

def apply(m, p):
    a, b, x, d, e, y = m
    return (a*p[0] + b*p[1] + x, d*p[0] + e*p[1] + y)

def ensure_matrix(c, label, t, m, order=2):
    for i, (u, v) in enumerate(zip(matrix(c, t), m)):
        c.ensure(f'{label}[{i}]', c.eq(u, v, order=order))

def both(c):
    return c.bool('affine')

# ------------------------------------------------------------------ application

@contract('T01', [M + 'Transformation.__mul__', M + 'AffineTransformation2D.__mul__', M + 'Transformation.__init__'])
def application(c):
    """T*v is the matrix product; neither T nor v changes; the image shares no storage with v."""
    affine = both(c)
    t, m = transformation(c, 't', affine)
    v = c.vec('v')
    p = c.xy(v)
    old = t.type
    w = c.call(t.__mul__, v)
    c.ensure('class', type(w) is c.V)
    c.vec_is('image', w, *apply(m, p))
    w.x = w.x + 1
    c.vec_is('vector kept', v, *p)
    ensure_matrix(c, 'transformation kept', t, m)
    c.ensure('kind kept', t.type is old)
    c.ensure_same('operator', c.view(t*v), apply(m, p))

@contract('T01', [M + 'AffineTransformation2D.__mul__'])
def homogeneous_application(c):
    t, m = transformation(c, 't', True)
    v = c.vec('v')
    h = c.cls('Patro.GeometryEngine.Vector.HomogeneousVector2D')(v)
    w = c.call(t.__mul__, h)
    c.ensure('class', type(w) is type(h))
    c.vec_is('image', w, *apply(m, c.xy(v)))
    c.ensure('weight', c.eq(w.w, 1))

def composition(c, affine, kinds):
    """(T*U)*v == T*(U*v), the kind of T*U describes it, and T and U are left unchanged."""
    t, m = transformation(c, 't', affine, kinds)
    u, n = transformation(c, 'u', affine)
    kt, ku = t.type, u.type
    r = c.call(t.__mul__, u)
    c.ensure('class', type(r) is type(t))
    ensure_matrix(c, 'composition', r, product(m, n))
    ensure_sound(c, 'composition', r)
    ensure_matrix(c, 'first factor kept', t, m, 1)
    ensure_matrix(c, 'second factor kept', u, n, 1)
    c.ensure('kinds kept', t.type is kt and u.type is ku)
    r.array[0, 0] = r.array[0, 0] + 1
    ensure_matrix(c, 'no shared storage', t, m, 1)
    ensure_matrix(c, 'no shared storage', u, n, 1)

def inplace_composition(c, affine, kinds):
    """T *= U makes T the composition U*T and leaves U unchanged."""
    t, m = transformation(c, 't', affine, kinds)
    u, n = transformation(c, 'u', affine)
    ku = u.type
    r = c.call(t.__imul__, u)
    c.ensure('in place', r is t)
    ensure_matrix(c, 'composition', t, product(n, m))
    ensure_sound(c, 'composition', t)
    ensure_matrix(c, 'factor kept', u, n, 1)
    c.ensure('kind kept', u.type is ku)
    t.array[0, 0] = t.array[0, 0] + 1
    ensure_matrix(c, 'no shared storage', u, n, 1)

def _instances():
    for body, targets in ((composition, ['Transformation.__mul__']), (inplace_composition, ['Transformation.__imul__'])):
        for affine in (False, True):
            for group in (('Identity', 'Scale', 'Parity', 'XParity', 'YParity'), ('Shear',), ('Rotation', 'Translation'), ('Generic',)):
                def fn(c, body=body, affine=affine, group=group):
                    body(c, affine, group)
                fn.__doc__ = body.__doc__
                fn.__name__ = f'{body.__name__}_{"affine" if affine else "linear"}_{group[-1]}'
                contract('T01', [M + x for x in targets + ['Transformation._mul_type', 'Transformation2D._check_type',
                                                           'AffineTransformation2D._check_type',
                                                           'Transformation2D.check_matrix_type']])(fn)
_instances()

@contract('T01', [M + 'Transformation.__mul__'])
def self_composition(c):
    """Composing a transformation with itself."""
    affine = both(c)
    t, m = transformation(c, 't', affine)
    r = c.call(t.__mul__, t)
    ensure_matrix(c, 'square', r, product(m, m))
    ensure_sound(c, 'square', r)
    ensure_matrix(c, 'factor kept', t, m, 1)
    s = t
    s *= t
    ensure_matrix(c, 'in place square', t, product(m, m))
    ensure_sound(c, 'in place square', t)

@contract('T01', [M + 'Transformation.__mul__'])
def scalar_scaling(c):
    """A length scaled through a transformation is scaled by the ratio of the map, or refused."""
    affine = both(c)
    t, m = transformation(c, 't', affine)
    s = c.real('s')
    a, b, x, d, e, y = m
    try:
        r = t.__mul__(s)
    except ValueError:
        c.ensure('only general maps are refused', t.type.name in ('Shear', 'Generic'))
        return
    c.ensure('length scaling', c.eq(r*r, s*s*(a*a + d*d), order=4))
    c.ensure('length scaling', c.eq(r*r, s*s*(b*b + e*e), order=4))
    c.ensure('similarity', c.eq(s*(a*b + d*e), 0, order=3))
    c.ensure('sign kept', c.ge(r*s, 0))

# ------------------------------------------------------------------ constructors

@contract('T01', [M + 'Transformation.Identity', M + 'Transformation.is_identity'])
def identity(c):
    affine = both(c)
    cls = c.cls(PATH + ('AffineTransformation2D' if affine else 'Transformation2D'))
    i = c.call(cls.Identity)
    ensure_matrix(c, 'identity', i, (1, 0, 0, 0, 1, 0))
    c.ensure('kind', i.type.name == 'Identity' and i.is_identity is True)
    t, m = transformation(c, 't', affine)
    k = t.type
    for label, r in (('left', i*t), ('right', t*i)):
        ensure_matrix(c, f'{label} neutral', r, m)
        ensure_sound(c, f'{label} neutral', r)
    t *= i
    ensure_matrix(c, 'in place neutral', t, m)
    c.ensure('kind kept', t.type is k)
    i *= t
    ensure_matrix(c, 'in place from identity', i, m)
    ensure_sound(c, 'in place from identity', i)
    j = cls.Identity()
    ensure_matrix(c, 'identities are not shared', j, (1, 0, 0, 0, 1, 0))

@contract('T01', [M + 'Transformation2D.Rotation', M + 'AffineTransformation2D.Rotation'])
def rotation(c):
    affine = both(c)
    cls = c.cls(PATH + ('AffineTransformation2D' if affine else 'Transformation2D'))
    g = c.angle('g')
    t = c.call(cls.Rotation, g)
    co, si = c.cosd(g), c.sind(g)
    ensure_matrix(c, 'rotation', t, (co, -si, 0, si, co, 0))
    c.ensure('kind', t.type.name == 'Rotation')
    ensure_sound(c, 'rotation', t)
    v = c.vec('v')
    w = t*v
    c.ensure('keeps lengths', c.eq(w.x*w.x + w.y*w.y, v.x*v.x + v.y*v.y, order=2))
    c.ensure_same('agrees with vectors', c.view(w), c.view(v.rotate(g)))

@contract('T01', [M + 'Transformation2D.Scale', M + 'AffineTransformation2D.Scale', M + 'Transformation2D.type_for_scale'])
def scaling(c):
    affine = both(c)
    cls = c.cls(PATH + ('AffineTransformation2D' if affine else 'Transformation2D'))
    x, y = c.reals('x', 'y')
    t = c.call(cls.Scale, x, y)
    ensure_matrix(c, 'scaling', t, (x, 0, 0, 0, y, 0))
    ensure_sound(c, 'scaling', t)
    c.ensure('precise kind', t.type.name in ('Identity', 'Parity', 'XParity', 'YParity', 'Scale', 'Shear'))
    if x == y:
        c.ensure('uniform', t.type.name != 'Shear')
        s = c.real('s')
        u = t*s
        c.ensure('ratio', c.eq(u*u, x*x*s*s, order=4))
    if not affine:
        u = c.call(cls.Scale, x)
        ensure_matrix(c, 'uniform scaling', u, (x, 0, 0, 0, x, 0))
        ensure_sound(c, 'uniform scaling', u)

@contract('T01', [M + 'Transformation2D.Parity', M + 'Transformation2D.XReflection', M + 'Transformation2D.YReflection'])
def reflections(c):
    cls = c.cls(PATH + 'Transformation2D')
    for name, m, k in (('Parity', (-1, -1), 'Parity'), ('XReflection', (-1, 1), 'XParity'), ('YReflection', (1, -1), 'YParity')):
        t = c.call(getattr(cls, name))
        ensure_matrix(c, name, t, (m[0], 0, 0, 0, m[1], 0))
        c.ensure(f'{name} kind', t.type.name == k)
        c.ensure(f'{name} is an involution', (t*t).type.name == 'Identity')

@contract('T01', [M + 'AffineTransformation.Translation', M + 'AffineTransformation2D.Screen'])
def translation(c):
    cls = c.cls(PATH + 'AffineTransformation2D')
    v = c.vec('v')
    t = c.call(cls.Translation, v)
    ensure_matrix(c, 'translation', t, (1, 0, v.x, 0, 1, v.y))
    c.ensure('kind', t.type.name == 'Translation')
    ensure_sound(c, 'translation', t)
    old = c.view(v)
    t.translation_part[0] = v.x + 1
    c.ensure_same('no shared storage', c.view(v), old)
    h = c.real('h')
    s = c.call(cls.Screen, h)
    ensure_matrix(c, 'screen', s, (1, 0, 0, 0, -1, h))
    ensure_sound(c, 'screen', s)

@contract('T01', [M + 'AffineTransformation.RotationAt'])
def rotation_about(c):
    """A rotation about a point fixes the point and turns the rest."""
    cls = c.cls(PATH + 'AffineTransformation2D')
    o, v = c.vecs('o', 'v')
    O = c.xy(o)
    g = c.angle('g')
    t = c.call(cls.RotationAt, o, g)
    c.vec_is('centre fixed', t*o, *O)
    co, si = c.cosd(g), c.sind(g)
    dx, dy = v.x - O[0], v.y - O[1]
    c.vec_is('turned', t*v, O[0] + co*dx - si*dy, O[1] + si*dx + co*dy)
    ensure_sound(c, 'rotation', t)
    c.vec_is('centre kept', o, *O)

@contract('T01', [M + 'Transformation.__init__', M + 'Transformation2D.check_matrix_type', M + 'AffineTransformation2D._check_type'])
def classification(c):
    """Matrices given explicitly: the kind found describes the matrix; copies are independent."""
    affine = both(c)
    cls = c.cls(PATH + ('AffineTransformation2D' if affine else 'Transformation2D'))
    a, b, d, e = c.reals('a', 'b', 'd', 'e')
    x, y = c.reals('x', 'y') if affine else (0, 0)
    l = [a, b, x, d, e, y, 0, 0, 1] if affine else [a, b, d, e]
    t = c.call(cls, l)
    ensure_matrix(c, 'matrix', t, (a, b, x, d, e, y))
    ensure_sound(c, 'matrix', t)
    if c.and_(a == 1, b == 0, d == 0, e == 1, x == 0, y == 0):
        c.ensure('identity recognised', t.type.name == 'Identity')
    k = c.call(cls, t)
    ensure_matrix(c, 'copy', k, (a, b, x, d, e, y))
    ensure_sound(c, 'copy', k)
    k.array[0, 0] = a + 1
    ensure_matrix(c, 'copy is independent', t, (a, b, x, d, e, y))
    o = c.call(t.to_list)
    c.ensure_same('to_list', tuple(o), tuple(l))
    c.ensure('dimension', t.dimension == 2 and t.size == (3 if affine else 2))
    other = c.cls(PATH + ('Transformation2D' if affine else 'AffineTransformation2D'))
    c.ensure_raises('wrong size refused', ValueError, other, t)
    c.ensure_raises('wrong size refused', ValueError, other, l)
