"""SVG transforms, path data and group state (F02).

Numbers in a text are numerals that stand for str() of a symbolic number, so a text stands for all texts with the same layout."""

import functools
import itertools
import math
import random
import re

from dv.contract import contract

S = 'Patro.FileFormat.Svg.SvgFormat'
F = 'Patro.FileFormat.Svg.SvgFile'

def signed(c, name, negative):
    """an arbitrary number of a given sign"""
    x = c.real(name, pos=True)
    return -x if negative else x

####################################################################################################
# transforms: matrices as (a, b, x, d, e, y)

def product(m, n):
    a, b, x, d, e, y = m
    A, B, X, D, E, Y = n
    return (a*A + b*D, a*B + b*E, a*X + b*Y + x, d*A + e*D, d*B + e*E, d*X + e*Y + y)

IDENTITY = (1, 0, 0, 0, 1, 0)

def rotation(c, g):
    k, s = c.cosd(g), c.sind(g)
    return (k, -s, 0, s, k, 0)

def transform_item(c, kind, tag, flip=False):
    """text arguments of a transform and the matrix the standard gives it"""
    def n(i):
        return signed(c, f'{tag}{i}', (i % 2 == 1) != flip)
    if kind == 'translate1':
        x = n(0)
        return 'translate', [x], (1, 0, x, 0, 1, 0)
    if kind == 'translate2':
        x, y = n(0), n(1)
        return 'translate', [x, y], (1, 0, x, 0, 1, y)
    if kind == 'scale1':
        x = n(0)
        return 'scale', [x], (x, 0, 0, 0, x, 0)
    if kind == 'scale2':
        x, y = n(0), n(1)
        return 'scale', [x, y], (x, 0, 0, 0, y, 0)
    if kind in ('rotate1', 'rotate3', 'skewX', 'skewY'):
        g = c.angle(tag + 'g', lo=0, hi=360)
        if kind.startswith('rotate'):
            if kind == 'rotate1':
                return 'rotate', [g], rotation(c, g)
            x, y = n(0), n(1)
            return 'rotate', [g, x, y], product(product((1, 0, x, 0, 1, y), rotation(c, g)), (1, 0, -x, 0, 1, -y))
        k = c.cosd(g)
        c.assume(c.or_(k > 0, k < 0))
        c.robust(k, tol=1e-2, zero=True)
        t = c.sind(g)/k
        return kind, [g], (1, t, 0, 0, 1, 0) if kind == 'skewX' else (1, 0, 0, t, 1, 0)
    a = [n(i) for i in range(6)]
    return 'matrix', a, (a[0], a[2], a[4], a[1], a[3], a[5])

TRANSFORMS = ('translate1', 'translate2', 'scale1', 'scale2', 'rotate1', 'rotate3', 'skewX', 'skewY', 'matrix')
STYLES = (('', ' ', '', ' '), ('', ',', '', ', '), (' ', ', ', ' ', ''), ('\n', ' , ', '\t', ' ,\n'))

def abstract_kinds(f):
    """transformations are taken by their matrix: the kind recorded with it is settled by T01, and the general kind is right
    for any matrix"""
    @functools.wraps(f)
    def run(c):
        m = c.mod('Patro.GeometryEngine.Transformation')
        saved = []
        if c.symbolic:
            for k in (m.Transformation2D, m.AffineTransformation2D):
                if '_check_type' in vars(k):
                    saved.append((k, vars(k)['_check_type']))
                    k._check_type = lambda self: m.TransformationType.Generic
        try:
            f(c)
        finally:
            for k, g in saved:
                k._check_type = g
    return run

def item_text(name, values, style):
    before, between, around, after = style
    return f'{name}{before}({around}' + between.join(str(v) for v in values) + f'{around})'

def affine(c, t):
    m = t.array
    return tuple(m[i, j] for i in (0, 1) for j in (0, 1, 2))

TRANSFORM = [S + ':TransformAttribute.' + x for x in ('from_xml', 'to_python', 'to_xml')]
COMPOSE = TRANSFORM + ['Patro.GeometryEngine.Transformation:' + x for x in
                       ('AffineTransformation.Translation', 'AffineTransformation.RotationAt', 'AffineTransformation2D.Scale',
                        'AffineTransformation2D.Rotation')]

def parse(c, text):
    return c.call(c.mod(S).TransformAttribute.from_xml, text)

def is_matrix(c, label, t, m):
    c.ensure(label + ': class', type(t).__name__ == 'AffineTransformation2D')
    c.ensure_same(label, affine(c, t), m)
    c.ensure(label + ': homogeneous', all(x == y for x, y in zip(t.array[2], (0, 0, 1))))

@contract('F02', COMPOSE, bounded='lists of one transform; numbers arbitrary')
@abstract_kinds
def transform_one(c):
    """Each transform is the matrix of the standard, whatever separators are used."""
    kind = c.choice('kind', *TRANSFORMS)
    name, values, m = transform_item(c, kind, 't', c.bool('flip'))
    for i, style in enumerate(STYLES):
        is_matrix(c, f'style {i}', parse(c, item_text(name, values, style)), m)
        is_matrix(c, f'style {i}, surrounded', parse(c, ' \n' + item_text(name, values, style) + ' '), m)

@contract('F02', COMPOSE, deadline=200, bounded='lists of two transforms; numbers arbitrary')
@abstract_kinds
def transform_two(c):
    """Two transforms: the product in the written order, whatever separates them."""
    n1, v1, m1 = transform_item(c, c.choice('first', *TRANSFORMS), 't', False)
    n2, v2, m2 = transform_item(c, c.choice('second', *TRANSFORMS), 'u', True)
    m = product(m1, m2)
    style = STYLES[(len(n1) + 3*len(n2) + len(v1) + len(v2)) % len(STYLES)]
    is_matrix(c, 'product', parse(c, item_text(n1, v1, style) + style[3] + item_text(n2, v2, style)), m)

@contract('F02', COMPOSE, deadline=200, bounded='lists of three transforms; numbers arbitrary')
@abstract_kinds
def transform_three(c):
    """Three transforms: the product in the written order."""
    kinds = ('translate2', 'skewX', 'rotate1', 'matrix')
    items = [transform_item(c, c.choice(f'item {i}', *kinds), 'tuv'[i], i % 2 == 1) for i in range(3)]
    text = ' '.join(item_text(n, v, STYLES[1]) for n, v, m in items)
    is_matrix(c, 'product', parse(c, text), product(product(items[0][2], items[1][2]), items[2][2]))

@contract('F02', COMPOSE)
@abstract_kinds
def transform_on_point(c):
    """The last transform of a list is applied first to a point."""
    (n1, v1, m1), (n2, v2, m2) = transform_item(c, 'translate2', 't'), transform_item(c, 'scale2', 'u')
    if c.bool('swap'):
        (n1, v1, m1), (n2, v2, m2) = (n2, v2, m2), (n1, v1, m1)
    p = c.vec('p')
    t = parse(c, f'{item_text(n1, v1, STYLES[0])} {item_text(n2, v2, STYLES[0])}')
    def at(m, q):
        return (m[0]*q[0] + m[1]*q[1] + m[2], m[3]*q[0] + m[4]*q[1] + m[5])
    r = t*p
    c.ensure_same('image', c.xy(r), at(m1, at(m2, c.xy(p))))

@contract('F02', TRANSFORM)
@abstract_kinds
def transform_written(c):
    """Any transformation is read back from what is written."""
    T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
    flip = c.bool('flip')
    l = [signed(c, f'm{i}', (i % 2 == 1) != flip) for i in range(6)]
    t = T(l + [0, 0, 1])
    K = c.mod(S).TransformAttribute
    text = c.call(K.to_xml, t)
    is_matrix(c, 'read back', parse(c, text), tuple(l))
    is_matrix(c, 'kept', t, tuple(l))
    c.ensure('Python value', K.from_xml(t) is t)
    for u in (T.Identity(), T.Parity() if hasattr(T, 'Parity') and False else T.Identity()):
        is_matrix(c, 'identity', parse(c, K.to_xml(u)), IDENTITY)
    is_matrix(c, 'empty list', parse(c, ''), IDENTITY)
    is_matrix(c, 'default untouched', T.Identity(), IDENTITY)

NUMBERS = (('0', 0), ('1', 1), ('-1', -1), ('.5', .5), ('-.25', -.25), ('+2', 2), ('1e1', 10), ('2.E-1', .2), ('1e-007', 1e-7), ('12.E+1', 120),
           ('90', 90), ('-180', -180), ('45', 45), ('-0', 0), ('3E0', 3), ('1e+2', 100), ('0.000', 0))

@contract('F02', COMPOSE, concrete_only=True, bounded='numbers from a list, zeros and every notation of the standard; up to 12 transforms')
def transform_special(c):
    """Zeros, the notations of a number and long lists."""
    import math
    def at(g):
        return (math.cos(math.radians(g)), -math.sin(math.radians(g)), 0, math.sin(math.radians(g)), math.cos(math.radians(g)), 0)
    m, text = IDENTITY, ''
    for i in range(c.choice('items', 1, 1, 2, 3, 12)):
        kind = c.choice(f'kind{i}', 'translate1', 'translate2', 'scale1', 'scale2', 'rotate1', 'rotate3', 'skewX', 'skewY', 'matrix')
        n = dict(rotate3=3, matrix=6).get(kind, 2 if kind.endswith('2') else 1)
        texts, v = zip(*(c.choice(f'n{i}.{j}', *NUMBERS) for j in range(n)))
        if kind in ('skewX', 'skewY'):
            texts, v = ('45',), (45,)
        name = kind.rstrip('123')
        x, y = v[0], v[-1]
        k = dict(translate1=(1, 0, x, 0, 1, 0), translate2=(1, 0, x, 0, 1, y), scale1=(x, 0, 0, 0, x, 0), scale2=(x, 0, 0, 0, y, 0), rotate1=at(x),
                 skewX=(1, 1, 0, 0, 1, 0), skewY=(1, 0, 0, 1, 1, 0)).get(kind)
        if kind == 'rotate3':
            k = product(product((1, 0, v[1], 0, 1, v[2]), at(x)), (1, 0, -v[1], 0, 1, -v[2]))
        elif kind == 'matrix':
            k = (v[0], v[2], v[4], v[1], v[3], v[5])
        m = product(m, k)
        text += item_text(name, texts, c.choice(f'style{i}', *STYLES)) + c.choice(f'sep{i}', ' ', ', ', '\n')
    got = affine(c, parse(c, text.rstrip(', \n')))
    size = max(1, *(abs(x) for x in m))
    c.ensure('matrix', all(abs(a - b) <= 1e-9*size for a, b in zip(got, m)), f'{text!r}: {got} for {m}')

@contract('F02', TRANSFORM[:2], concrete_only=True, cases=60)
def transform_refused(c):
    """Texts that are no list of transforms are refused."""
    text = c.choice('text', 'translate', 'translate 1 2', 'translate(1 2', 'translate(a)', 'foo(1)', '1', 'matrix(1 2 3)',
                    'scale(1) x', 'scale(2)) ')
    c.ensure_raises('refused', (ValueError, NotImplementedError, IndexError), c.mod(S).TransformAttribute.from_xml, text)

####################################################################################################
# path data

ARGS = dict(m=2, l=2, h=1, v=1, c=6, s=4, q=4, t=2, a=7, z=0)

def interpret(commands, mul=lambda x: 2*x):
    """parts of a path by the rules of the standard: (kind, points after the start, extra)"""
    parts = []
    x = y = 0
    start = None
    control = None       # (kind, point)
    for letter, a in commands:
        k = letter.lower()
        relative = letter == k
        def pt(i):
            return (x + a[i], y + a[i+1]) if relative else (a[i], a[i+1])
        new_control = None
        if k == 'm':
            x, y = pt(0) if start is not None else (a[0], a[1])
            start = (x, y)
            continue
        if k == 'l':
            pts, kind, extra = [pt(0)], 'L', ()
        elif k == 'h':
            pts, kind, extra = [(x + a[0] if relative else a[0], y)], 'L', ()
        elif k == 'v':
            pts, kind, extra = [(x, y + a[0] if relative else a[0])], 'L', ()
        elif k == 'c':
            pts, kind, extra = [pt(0), pt(2), pt(4)], 'C', ()
            new_control = ('C', pts[1])
        elif k == 's':
            q = (2*x - control[1][0], 2*y - control[1][1]) if control and control[0] == 'C' else (x, y)
            pts, kind, extra = [q, pt(0), pt(2)], 'C', ()
            new_control = ('C', pts[1])
        elif k == 'q':
            pts, kind, extra = [pt(0), pt(2)], 'Q', ()
            new_control = ('Q', pts[0])
        elif k == 't':
            q = (2*x - control[1][0], 2*y - control[1][1]) if control and control[0] == 'Q' else (x, y)
            pts, kind, extra = [q, pt(0)], 'Q', ()
            new_control = ('Q', q)
        elif k == 'a':
            pts, kind, extra = [pt(5)], 'A', (a[0], a[1], a[2], bool(a[3]), bool(a[4]))
        else:
            pts, kind, extra = [start], 'Z', ()
        control = new_control
        x, y = pts[-1]
        parts.append((kind, pts, extra))
    return start, parts

KIND = dict(QuadraticBezierSegment='Q', CubicBezierSegment='C', ArcSegment='A')

def check_path(c, label, path, commands):
    p0, parts = interpret(commands)
    c.ensure_same(f'{label}: start', c.xy(path.p0), p0)
    c.ensure(f'{label}: closed', path.is_closed is any(k == 'Z' for k, _, _ in parts))
    c.ensure(f'{label}: number of parts', len(path) == len(parts), detail=f'{len(path)} {len(parts)}')
    start = p0
    for i, (part, (kind, pts, extra)) in enumerate(zip(path, parts)):
        found = KIND.get(type(part).__name__, 'L')
        c.ensure(f'{label}: kind of part {i}', found == ('L' if kind == 'Z' else kind), detail=type(part).__name__)
        got = [c.xy(p) for p in part.points]
        c.ensure_same(f'{label}: points of part {i}', got, [start] + pts)
        if kind == 'A':
            c.ensure_same(f'{label}: ellipse of part {i}', (part._radius_x, part._radius_y, part._angle), extra[:3])
            c.ensure(f'{label}: flags of part {i}', (bool(part._large_arc), bool(part._sweep)) == extra[3:])
        start = pts[-1]

def path_text(commands, style):
    """path data in a layout: separators, repeated letters left out"""
    sep, after, hide = style
    text, last = '', None
    for letter, a in commands:
        expected = {'m': 'l', 'M': 'L'}.get(last, last)
        if not (hide and letter == expected and a):
            text += ('' if hide else ' ') + letter + after
        elif sep is None:
            text += '' if str(a[0]).startswith('-') else ' '
        else:
            text += sep
        for i, v in enumerate(a):
            s = str(v)
            if i and not (sep is None and s.startswith('-')):
                text += ' ' if sep is None else sep
            text += s
        last = letter
    return text

LAYOUTS = ((' ', ' ', False), (',', '', True), (None, '', True), (', \n', '\t', False), (' ', '', True))

def sym_commands(c, letter, tag, flip):
    k = letter.lower()
    a = [signed(c, f'{tag}{i}', (i % 2 == 1) != flip) for i in range(ARGS[k])]
    if k == 'a':
        a[0], a[1] = c.real(tag + 'rx', pos=True), c.real(tag + 'ry', pos=True)
        a[2] = c.real(tag + 'g', pos=True)
        a[3], a[4] = (1, 0) if flip else (0, 1)
    return (letter, a)

PARSE = [S + ':PathDataAttribute.' + x for x in ('from_xml', 'to_geometry', 'as_vector')]
WRITE = [S + ':PathDataAttribute.' + x for x in ('to_xml', 'from_geometry')]
PATH = ['Patro.GeometryEngine.Path:Path2D.' + x for x in ('line_to', 'horizontal_to', 'vertical_to', 'absolute_horizontal_to',
        'absolute_vertical_to', 'cubic_to', 'stringed_cubic_to', 'quadratic_to', 'stringed_quadratic_to', 'arc_to', 'close')]

LETTERS = 'LlHhVvCcSsQqTtAa'

@contract('F02', PARSE + PATH, deadline=240, bounded='paths of up to 3 commands, every pair of letters of the lists; numbers arbitrary')
def path_command(c):
    """Each command after each kind of command, repeated, in every layout: the points the standard gives."""
    first = c.choice('first', 'M', 'm')
    commands = [sym_commands(c, first, 'p', False)]
    before = c.choice('before', None, 'l', 'H', 'C', 's', 'Q', 't', 'A')
    if before:
        commands.append(sym_commands(c, before, 'b', True))
    letter = c.choice('letter', *LETTERS)
    commands.append(sym_commands(c, letter, 'k', False))
    if c.bool('repeated'):
        commands.append(sym_commands(c, letter, 'r', True))
    k = len(commands) + LETTERS.index(letter)
    for i in (k % len(LAYOUTS), (k + 2) % len(LAYOUTS)):
        text = path_text(commands, LAYOUTS[i])
        check_path(c, f'layout {i}', c.call(c.mod(S).PathDataAttribute.from_xml, text), commands)

@contract('F02', PARSE + PATH, bounded='up to 3 implicit lines; numbers arbitrary')
def path_implicit_lines(c):
    """Coordinates after a move are lines, absolute or relative as the move is; closing returns to the start."""
    first = c.choice('first', 'M', 'm')
    line = 'L' if first == 'M' else 'l'
    commands = [sym_commands(c, first, 'p', False)]
    for i in range(c.choice('lines', 1, 2, 3)):
        commands.append(sym_commands(c, line, f'l{i}', i % 2 == 0))
    if c.bool('closed'):
        commands.append((c.choice('letter', 'Z', 'z'), []))
    for i, layout in enumerate(LAYOUTS):
        check_path(c, f'layout {i}', c.call(c.mod(S).PathDataAttribute.from_xml, path_text(commands, layout)), commands)

@contract('F02', PARSE + WRITE + PATH, deadline=240, bounded='paths of up to 3 commands; numbers arbitrary')
def path_written(c):
    """A path without fillets is read back from what is written."""
    first = c.choice('before', 'L', 'C', 'q', 'A')
    letter = c.choice('letter', *'LhVCsQtAac')
    commands = [sym_commands(c, 'M', 'p', False), sym_commands(c, first, 'b', True), sym_commands(c, letter, 'k', False)]
    if c.bool('closed'):
        commands.append(('Z', []))
    K = c.mod(S).PathDataAttribute
    path = K.from_xml(path_text(commands, LAYOUTS[0]))
    text = c.call(K.to_xml, path)
    check_path(c, 'read back', c.call(K.from_xml, text), commands)
    check_path(c, 'kept', path, commands)
    c.ensure('Python value', K.from_xml(path) is path)

@contract('F02', PARSE, concrete_only=True, bounded='numbers from a list, up to 40 lines')
def path_notations(c):
    """Every notation of a number in path data, in long paths."""
    def point(i):
        (a, x), (b, y) = (c.choice(f'{i}.{k}', *NUMBERS) for k in 'xy')
        return a + c.choice(f'{i}.s', ' ', ',', ' , ', '\n') + b, (x, y)
    text, p = point('p')
    text, pts = 'M' + text, [p]
    for i in range(c.choice('lines', 1, 2, 5, 40)):
        t, q = point(i)
        relative = c.bool(f'{i}.relative')
        text += c.choice(f'{i}.before', '', ' ') + 'Ll'[relative] + t
        pts.append((pts[-1][0] + q[0], pts[-1][1] + q[1]) if relative else q)
    path = c.call(c.mod(S).PathDataAttribute.from_xml, text)
    c.ensure_same('points', [c.xy(path.p0)] + [c.xy(x.stop_point) for x in path], pts)

@contract('F02', PARSE + WRITE, bounded='paths of up to 3 commands; numbers arbitrary')
def path_written_compass(c):
    """Parts given by a direction and closing are written as what they denote."""
    P = c.cls('Patro.GeometryEngine.Path.Path2D')
    p0, p1 = c.vec('p'), c.vec('q')
    path = P(p0)
    l = c.real('l')
    getattr(path, c.choice('direction', 'horizontal', 'vertical', 'north', 'west', 'south_east') + '_to')(l)
    path.line_to(p1, absolute=c.bool('absolute'))
    closed = c.bool('closed')
    if closed:
        path.close()
    back = c.mod(S).PathDataAttribute.from_xml(c.call(c.mod(S).PathDataAttribute.to_xml, path))
    c.ensure('parts', len(back) == len(path) and back.is_closed is path.is_closed)
    for i, (a, b) in enumerate(zip(path, back)):
        c.ensure_same(f'part {i}', [c.xy(p) for p in a.points], [c.xy(p) for p in b.points])

# layouts of numbers

@contract('F02', WRITE, concrete_only=True, cases=30)
def fillet_not_written(c):
    """A path with a fillet has no path data yet: it is refused, never written without its fillet."""
    Path = c.cls('Patro.GeometryEngine.Path.Path2D')
    path = Path(c.vec('p'))
    kind = c.choice('kind', 'line', 'horizontal', 'compass', 'closing')
    path.line_to(c.V(10, 3))
    if kind == 'line':
        path.line_to(c.V(3, 12), radius=1)
    elif kind == 'horizontal':
        path.horizontal_to(15, radius=1)
    elif kind == 'compass':
        path.north_to(12, radius=1)
    else:
        path.line_to(c.V(3, 12))
        path.close(radius=1)
    path.line_to(c.V(3, 12)) if kind != 'closing' else None
    c.ensure_raises('refused', NotImplementedError, lambda: c.mod(S).PathDataAttribute.to_xml(path))

def number_text(r):
    """a number of the grammar and its value"""
    sign = r.choice(('', '', '-', '+'))
    digits = r.choice(('0', '1', '7', '10', '203', '5'))
    form = r.randrange(6)
    if form == 0: t = digits
    elif form == 1: t = digits + '.' + r.choice(('0', '5', '25'))
    elif form == 2: t = '.' + r.choice(('5', '25', '125'))
    elif form == 3: t = digits + '.'
    elif form == 4: t = digits + r.choice('eE') + r.choice(('1', '+1', '-1', '0'))
    else: t = '.5' + r.choice('eE') + r.choice(('1', '-2'))
    v = float(t if not t.endswith('.') else t + '0')
    return sign + t, -v if sign == '-' else v

def random_path(r, n):
    commands, text, last = [], r.choice(('', ' ', '\n')), ''
    for i in range(n):
        letter = r.choice('Mm') if i == 0 else r.choice(LETTERS)
        if i and r.random() < .35 and commands[-1][1]:
            letter = {'m': 'l', 'M': 'L'}.get(commands[-1][0], commands[-1][0])
        k = letter.lower()
        hide = bool(i) and letter == {'m': 'l', 'M': 'L'}.get(commands[-1][0], commands[-1][0]) and r.random() < .6
        a = []
        if not hide:
            text += r.choice(('', ' ', '\n')) + letter
            last = ''
        for j in range(ARGS[k]):
            if k == 'a' and j in (3, 4):
                t = r.choice('01')
                v = float(t)
            else:
                t, v = number_text(r)
                if k == 'a' and j in (0, 1):
                    t, v = t.lstrip('+-'), abs(v)
            # the separator may be left out where the next text cannot continue the number
            flag = k == 'a' and j in (4, 5)
            free = last == '' or flag or t[0] in '+-' or t[0] == '.' and ('.' in last or 'e' in last.lower())
            text += r.choice(('', ' ', ',', ' , ', '\n') if free and last else ('', ' ') if free else (' ', ',', ', ', '\t', ' ,'))
            text += t
            last = t
            a.append(v)
        commands.append((letter, a))
    if r.random() < .3:
        text += r.choice(('', ' ')) + r.choice('Zz')
        commands.append(('Z', []))
    return commands, text + r.choice(('', ' ', '\n'))

@contract('F02', PARSE, concrete_only=True, cases=1500, bounded='random path data of 1 to 9 commands')
def path_layouts(c):
    """Numbers with and without sign, point, exponent and separators, as the grammar allows."""
    seed = c.int('seed', 0, 10**9)
    r = random.Random(seed)
    commands, text = random_path(r, r.randint(1, 9))
    check_path(c, text, c.call(c.mod(S).PathDataAttribute.from_xml, text), commands)

@contract('F02', PARSE, concrete_only=True, cases=200)
def path_refused(c):
    """Texts that are no path data are refused."""
    text = c.choice('text', '1 2', 'M 1', 'M 1 2 L', 'M 1 2 L 3', 'L 1 2', 'M 1 2 X 3 4', 'M 1 2 L 3 4 5', 'M 1 2 C 1 2 3 4',
                    'M 1 2 Z 3', 'M a b', 'M 1 2 A 1 1 0 2 0 3 4', 'M 1 2 L 3 4 #', 'M 1 2 H', 'M 1 2 L L')
    c.ensure_raises(repr(text), (ValueError, NameError), c.mod(S).PathDataAttribute.from_xml, text)

####################################################################################################
# state of groups

TEXT_STATES = {'fill': ('fill', ('red', '#00ff00', 'none')), 'stroke': ('stroke', ('blue', '#123456', 'none')),
               'stroke-linecap': ('stroke_linecap', ('round', 'square', 'butt')),
               'stroke-linejoin': ('stroke_linejoin', ('round', 'bevel')),
               'stroke-width': ('stroke_width', ('2', '0.5', '1e-3', '0')), 'stroke-miterlimit': ('stroke_miterlimit', ('2', '7.5')),
               'stroke-dasharray': ('stroke_dasharray', ('1 2', '3'))}
STYLE_ONLY = {'opacity': ('opacity', ('0.25', '1')), 'fill-opacity': ('fill_opacity', ('.5', '0')),
              'stroke-dashoffset': ('stroke_dashoffset', ('3',)), 'fill-rule': ('fill_rule', ('evenodd',)),
              'stroke-opacity': ('stroke_opacity', ('5e-1',)), 'visibility': ('visibility', ('hidden',))}
DEFAULTS = dict(fill=None, stroke=None, stroke_linecap='butt', stroke_linejoin='miter', stroke_width=1, stroke_miterlimit=4,
                stroke_dasharray=None, opacity=1, fill_opacity=1, stroke_dashoffset=None, fill_rule='nonzero',
                stroke_opacity=1, visibility=None)

def state_value(name, text):
    """the value of a state set by a text"""
    if text == 'none':
        return None
    if name == 'stroke_dasharray':
        return [float(x) for x in text.split()]
    try:
        return float(text)
    except ValueError:
        return text

def same_state(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-12
    if isinstance(a, list) or isinstance(b, list):
        if isinstance(a, str):
            a = [float(x) for x in a.replace(',', ' ').split()]
        if not isinstance(a, (list, tuple)):
            a = [a]
        return isinstance(b, list) and [float(x) for x in a] == [float(x) for x in b]
    return a == b

ITEMS = dict(circle='cx="1" cy="2" r="3"', ellipse='cx="1" cy="2" rx="3" ry="4"', line='x1="1" y1="2" x2="3" y2="4"',
             path='d="M 1 2 L 3 4"', polyline='points="1,2 3,4"', polygon='points="1,2 3,4 5,6"',
             rect='x="1" y="2" width="3" height="4"')
IGNORED = ('<defs/>', '<text>a</text>', '<desc>b</desc>', '<!-- comment -->' , '<style/>')

def random_attributes(r, k):
    """attribute text of an element, the state it sets, its transform"""
    attrs, state, m = [], {}, IDENTITY
    for xml, (name, values) in TEXT_STATES.items():
        if r.random() < .25:
            v = r.choice(values)
            if xml == 'stroke-dasharray' and v == 'none':
                continue
            attrs.append(f'{xml}="{v}"')
            state[name] = state_value(name, v)
        elif r.random() < .08 and xml in ('fill', 'stroke', 'stroke-linecap'):
            attrs.append(f'{xml}="inherit"')
    if r.random() < .5:
        t = r.choice((('translate(2,3)', (1, 0, 2, 0, 1, 3)), ('scale(2 4)', (2, 0, 0, 0, 4, 0)), ('scale(-1)', (-1, 0, 0, 0, -1, 0)),
                      ('matrix(1 2 3 4 5 6)', (1, 3, 5, 2, 4, 6)), ('rotate(90)', (0, -1, 0, 1, 0, 0)),
                      ('translate(1) scale(2)', (2, 0, 1, 0, 2, 0))))
        attrs.append(f'transform="{t[0]}"')
        m = t[1]
    if r.random() < .4:
        pairs = []
        styles = {x: (n, v) for x, (n, v) in itertools.chain(STYLE_ONLY.items(), TEXT_STATES.items()) if x != 'stroke-dasharray'}
        for xml, (name, values) in styles.items():
            if r.random() < .25:
                v = r.choice(values)
                pairs.append(f'{xml}{r.choice((":", ": ", " : "))}{v}')
                state[name] = state_value(name, v)
        attrs.append('style="' + r.choice(('; ', ';')).join(pairs) + r.choice(('', ';')) + '"')
    return ' '.join(attrs), state, m

def random_tree(r, depth, state, m, out):
    """text of the content of a group; the expected items are appended to out"""
    text = ''
    for i in range(r.choice((0, 1, 2, 3))):
        attrs, new, t = random_attributes(r, i)
        s, n = {**state, **new}, product(m, t)
        if depth and r.random() < .5:
            ident = f'g{len(out)}'
            out.append(('g', ident, None, None))
            text += f'<g id="{ident}" {attrs}>' + random_tree(r, depth - 1, s, n, out) + '</g>'
        elif r.random() < .15:
            text += r.choice(IGNORED)
        else:
            tag = r.choice(list(ITEMS))
            ident = f'i{len(out)}'
            out.append((tag, ident, s, n))
            text += f'<{tag} id="{ident}" {ITEMS[tag]} {attrs}/>'
    return text

STATE = [F + ':RenderState.' + x for x in ('__init__', 'merge', 'clone', 'to_python', 'to_dict')] + \
        [F + ':RenderStateStack.' + x for x in ('__init__', 'push', 'pop', 'state')]
DISPATCH = [F + ':SvgDispatcher.' + x for x in ('from_xml', 'on_root', 'on_group', 'on_graphic_item', 'element_tag', 'state')]

def reader(c, seen):
    m = c.mod(F)
    class Reader(m.SvgFileInternal):
        def on_group(self, group):
            seen.append((group.__tag__, group.id, None))
        def on_graphic_item(self, item):
            seen.append((item.__tag__, item.id, self._dispatcher.state.clone().merge(item)))
    return Reader

NS = 'xmlns="http://www.w3.org/2000/svg"'

@contract('F02', STATE + DISPATCH + [F + ':SvgFileInternal._read', F + ':SvgFileInternal.on_svg_root'], concrete_only=True, cases=700,
          bounded='random documents, groups nested up to 4 deep')
def documents(c):
    """In a document of nested groups every item has the state and transform its ancestors and itself give it, in document order."""
    r = random.Random(c.int('seed', 0, 10**9))
    expected, seen = [], []
    body = random_tree(r, 4, {}, IDENTITY, expected)
    if not expected:
        return
    text = f'<svg {r.choice((NS, ""))} width="10mm" height="20mm" viewBox="1 2 10 20">{body}</svg>'
    f = reader(c, seen)(None, text)
    b = f.view_box
    c.ensure('view box', (b.x.inf, b.x.sup, b.y.inf, b.y.sup) == (1, 11, 2, 22))
    c.ensure('size', f.width == '10mm' and f.height == '20mm')
    c.ensure('order', [x[:2] for x in seen] == [x[:2] for x in expected], detail=text)
    for (tag, ident, state), (_, _, values, m) in zip(seen, expected):
        if state is None:
            continue
        got = {k: getattr(state, k) for k in DEFAULTS}
        want = {k: values.get(k, d) for k, d in DEFAULTS.items()}
        for k in DEFAULTS:
            c.ensure(f'{k} of {ident}', same_state(got[k], want[k]), detail=f'{got[k]!r} {want[k]!r} in {text}')
        c.ensure_same(f'transform of {ident}', affine(c, state.transform), m)
    P = c.mod(S).PresentationAttributes
    is_matrix(c, 'default transform', P.transform, IDENTITY)

def any_state(c, m):
    """a state any history can leave: arbitrary values"""
    state = m.RenderState()
    T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
    l = [c.real(f's{i}') for i in range(6)]
    state.transform = T(l + [0, 0, 1])
    state.fill = c.choice('state fill', None, 'red')
    state.stroke_width = c.real('state width')
    state.opacity = c.real('state opacity')
    return state, tuple(l)

def all_values(state):
    return {k: v for k, v in state.to_dict(all=True).items() if k != 'transform'}

@contract('F02', STATE, bounded='attribute values from lists; numbers arbitrary')
@abstract_kinds
def state_merge(c):
    """Merging an item: its transform is appended, what it sets is set, all else is kept; the item is kept."""
    m, s = c.mod(F), c.mod(S)
    state, l = any_state(c, m)
    before = all_values(state)
    T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
    u = [c.real(f'u{i}') for i in range(6)]
    kw = {}
    if c.bool('transform'):
        kw['transform'] = T(u + [0, 0, 1])
    width = c.real('width', pos=True)
    if c.bool('width'[:4] + ' set'):
        kw['stroke_width'] = width
    fill = c.choice('fill', None, 'blue', 'inherit')
    if fill:
        kw['fill'] = fill
    K = c.choice('element', s.Group, s.Circle, s.Path, s.Rect)
    style_text, opacity = c.choice('style', (None, None), ('', None), ('stroke: green;', None), (f'opacity:{signed(c, "o", False)}', 1),
                                    ('stroke:green; transform:translate(3, 4)', 'moved'))
    if style_text is not None:
        kw['style'] = style_text
    item = K(**kw)
    r = c.call(state.merge, item)
    c.ensure('result', r is state)
    now = product(l, tuple(u)) if 'transform' in kw else l
    if opacity == 'moved':
        now = product(now, (1, 0, 3, 0, 1, 4))
    c.ensure_same('transform', affine(c, state.transform), now)
    want = dict(before)
    if 'stroke_width' in kw:
        want['stroke_width'] = width
    if fill == 'blue':
        want['fill'] = 'blue'
    if style_text and style_text.startswith('stroke'):
        want['stroke'] = 'green'
    if opacity == 1:
        want['opacity'] = c.real('o', pos=True) if not c.symbolic else signed(c, 'o', False)
    after = all_values(state)
    c.ensure('states', set(after) == set(want))
    for k in want:
        c.ensure(f'{k}', c.same(after[k], want[k]), detail=f'{after[k]} {want[k]}')
    some = state.to_dict()
    c.ensure('states that are set', set(some) - {'transform'} == {k for k in after if after[k] is not None})
    for k, v in after.items():
        if v is not None:
            c.ensure('states that are set', c.same(some[k], v))
    if 'transform' in kw:
        is_matrix(c, 'transform of the item kept', item.transform, tuple(u))
    is_matrix(c, 'default', s.PresentationAttributes.transform, IDENTITY)

@contract('F02', STATE)
@abstract_kinds
def state_clone(c):
    """A cloned state has the same values, and merging into it leaves the original."""
    m, s = c.mod(F), c.mod(S)
    state, l = any_state(c, m)
    before = all_values(state)
    clone = c.call(state.clone)
    c.ensure_same('transform', affine(c, clone.transform), l)
    for k, v in before.items():
        c.ensure(k, c.same(getattr(clone, k), v))
    T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
    clone.merge(s.Group(transform=T([c.real(f'u{i}') for i in range(6)] + [0, 0, 1]), fill='blue', stroke='red'))
    c.ensure_same('transform of the original', affine(c, state.transform), l)
    for k, v in before.items():
        c.ensure(f'{k} of the original', c.same(getattr(state, k), v))

@contract('F02', STATE + DISPATCH)
@abstract_kinds
def group_frame(c):
    """A group applies to its content and to nothing after it: whatever is read inside (the content stands by this contract),
    the state after the group is the state before."""
    m, s = c.mod(F), c.mod(S)
    from lxml import etree
    T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
    inside, groups = [], []
    class Reader:
        def on_group(self, group):
            groups.append(group)
        def on_graphic_item(self, item):
            pass
    class Dispatcher(m.SvgDispatcher):
        def on_root(self, root):
            inside.append((root, self.state))
            # the content may do what it likes with its own state
            self._state_stack.push(s.Group(fill='green', transform=T([c.real(f'w{i}') for i in range(6)] + [0, 0, 1])))
            self._state_stack.pop()
    d = Dispatcher(Reader())
    l = IDENTITY
    if c.bool('nested'):
        u = [signed(c, f'u{i}', i % 2 == 0) for i in range(6)]
        d._state_stack.push(s.Group(fill='red', stroke_width=signed(c, 'w', False), transform=T(u + [0, 0, 1])))
        l = tuple(u)
    before = d.state
    values = all_values(before)
    v = [signed(c, f'v{i}', i % 2 == 1) for i in range(6)]
    element = s.Group(id='g', stroke='blue', transform=T(v + [0, 0, 1])).to_xml()
    c.call(d.on_group, element)
    c.ensure('state object restored', d.state is before)
    c.ensure_same('transform restored', affine(c, d.state.transform), l)
    for k, x in values.items():
        c.ensure(f'{k} restored', c.same(getattr(d.state, k), x))
    if not inside:
        c.not_applicable('the content is read otherwise')
        return
    c.ensure('content read once', len(inside) == 1 and inside[0][0] is element and len(groups) == 1 and groups[0].id == 'g')
    state = inside[0][1]
    c.ensure('own state', state is not before)
    c.ensure_same('transform inside', affine(c, state.transform), product(l, tuple(v)))
    for k, x in values.items():
        c.ensure(f'{k} inside', c.same(getattr(state, k), 'blue' if k == 'stroke' else x))

@contract('F02', [F + ':RenderState.to_python'])
def state_values(c):
    """none is no value, numbers are numbers, other texts and values are kept."""
    f = c.mod(F).RenderState.to_python
    c.ensure('none', f('none') is None and f(None) is None)
    for x in ('red', '#00ff00', 'url(#a)', '1px', '', 'evenodd', '1 2'):
        c.ensure(repr(x), f(x) == x)
    for text, v in (('1', 1), ('-2', -2), ('0.5', .5), ('.5', .5), ('1.', 1), ('1e-3', 1e-3), ('25E2', 2500), ('5e-1', .5), ('+3', 3)):
        c.ensure(text, abs(f(text) - v) < 1e-15)
    x, i = c.real('x'), c.int('i')
    c.ensure('number', c.eq(f(str(x)), x))
    c.ensure('whole number', c.eq(f(str(i)), i))
    c.ensure('value kept', c.eq(f(x), x))

@contract('F02', [F + ':SvgFileInternal.on_svg_root', F + ':SvgFileInternal._read'])
def view_box(c):
    """The view box is given by its position and size."""
    x, y = signed(c, 'x', c.bool('negative')), c.real('y', pos=True)
    w, h = c.real('w', pos=True), c.real('h', pos=True)
    sep = c.choice('separator', ' ', ',', ', ')
    seen = []
    f = c.call(reader(c, seen), None, f'<svg {NS} width="3mm" height="4mm" viewBox="{x}{sep}{y}{sep}{w}{sep}{h}"/>')
    b = f.view_box
    c.ensure_same('view box', (b.x.inf, b.x.sup, b.y.inf, b.y.sup), (x, x + w, y, y + h))
    c.ensure('size', f.width == '3mm' and f.height == '4mm' and not seen)

@contract('F02', [F + ':SvgFileWriter._write', F + ':SvgFileWriter._new_root'], concrete_only=True, cases=150)
def files(c):
    """A written file is read back: size, items in order, their attributes, the transform of the drawing."""
    import os
    import shutil
    import tempfile
    m, s = c.mod(F), c.mod(S)
    class Paper:
        width = c.int('w', 1, 2000)/4
        height = c.int('h', 1, 2000)/4
    T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
    u = [c.real(f'u{i}') for i in range(6)]
    transformation = T(u + [0, 0, 1]) if c.bool('transform') else None
    items = []
    for i in range(c.choice('items', 0, 1, 3)):
        k = c.choice(f'k{i}', 'circle', 'path', 'text', 'line')
        x, y, z, t = (c.real(f'{n}{i}') for n in 'xyzt')
        if k == 'circle':
            items.append(s.Circle(id=f'i{i}', cx=x, cy=y, r=abs(z), stroke='red', stroke_width=abs(t)))
        elif k == 'line':
            items.append(s.Line(id=f'i{i}', x1=x, y1=y, x2=z, y2=t))
        elif k == 'text':
            items.append(s.Text(id=f'i{i}', x=x, y=y, text='a < b'))
        else:
            # what SvgPainter gives: the commands as a text
            items.append(s.Path(id=f'i{i}', path_data=f'M {x} {y} L {z} {t}', fill='none'))
    folder = tempfile.mkdtemp(prefix='dv-svg-')
    try:
        path = os.path.join(folder, 'a.svg')
        m.SvgFileWriter(path, Paper, items, transformation)
        seen = []
        class Reader(m.SvgFileInternal):
            def on_group(self, group):
                pass
            def on_graphic_item(self, item):
                seen.append((item, self._dispatcher.state.clone().merge(item)))
        f = Reader(path)
    finally:
        shutil.rmtree(folder)
    b = f.view_box
    c.ensure('view box', (b.x.inf, b.x.sup, b.y.inf, b.y.sup) == (0, Paper.width, 0, Paper.height))
    c.ensure('size', (f.width, f.height) == (f'{Paper.width:.3f}mm', f'{Paper.height:.3f}mm'))
    want = [i for i in items if i.__tag__ != 'text']
    c.ensure('items', [i.id for i, _ in seen] == [i.id for i in want])
    for (got, state), item in zip(seen, want):
        for a in item.__attributes__:
            p, q = getattr(got, a.py_attribute), getattr(item, a.py_attribute)
            if a.py_attribute == 'path_data':
                c.ensure_same('path', *([c.xy(i.p0)] + [c.xy(x.stop_point) for x in i] for i in (p, q)))
            elif a.py_attribute != 'transform':
                c.ensure(f'{a.py_attribute}', c.same(p, q), detail=f'{p} {q}')
        c.ensure_same('transform', affine(c, state.transform), tuple(u) if transformation else IDENTITY)
