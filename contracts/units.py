"""Units of length, yarn numbers and paper formats (U01)."""

import itertools

from dv.contract import contract

T = 'Patro.GraphicEngine.GraphicScene.TypographyUnit'
Y = 'Patro.TextileTechnology.Yarn'
P = 'Patro.GraphicEngine.Painter.Paper'

UNITS = ('mm', 'inch', 'point')
CLASSES = dict(mm='MmUnit', inch='InchUnit', point='PointUnit')
PER_INCH = dict(mm=(254, 10), inch=(1, 1), point=(72, 1))

def unit(c, name):
    return getattr(c.mod(T), CLASSES[name])

def per_inch(c, name):
    return c.q(*PER_INCH[name])

def convert(c, x, name):
    return c.call(getattr(x, 'to_' + name))

TO = [f'{T}:{k}.to_{u}' for k in CLASSES.values() for u in UNITS]

@contract('U01', TO)
def conversions(c):
    """One inch is 25.4 mm and 72 points: every conversion, and back."""
    u, v = c.choice('from', *UNITS), c.choice('to', *UNITS)
    x = c.real('x')
    a = unit(c, u)(x)
    b = convert(c, a, v)
    c.ensure('class', type(b) is unit(c, v))
    c.ensure('length', c.eq(b.__float__()*per_inch(c, u), x*per_inch(c, v)))
    back = convert(c, b, u)
    c.ensure('class of the way back', type(back) is type(a))
    c.ensure('identity', c.eq(back.__float__(), x))
    c.ensure('operand kept', c.eq(a.__float__(), x) and c.eq(b.__float__()*per_inch(c, u), x*per_inch(c, v)))

@contract('U01', TO)
def conversions_compose(c):
    """Converting by way of a third unit gives the same length."""
    u, v, w = (c.choice(n, *UNITS) for n in ('from', 'by', 'to'))
    x = c.real('x')
    a = unit(c, u)(x)
    c.ensure('same length', c.eq(convert(c, convert(c, a, v), w).__float__(), convert(c, a, w).__float__()))

@contract('U01', [f'{T}:TypographyUnit'])
def unit_constants(c):
    """The constants of the unit classes agree with the definition of the inch."""
    for name in CLASSES.values():
        k = getattr(c.mod(T), name)
        def ratio(label, x, p, q=1):
            c.ensure(label, abs(x*q - p) < 1e-9*p)
        ratio('inch in mm', k.INCH_2_MM, 254, 10)
        ratio('inch in points', k.INCH_2_POINT, 72)
        ratio('point in mm', k.POINT_2_MM, 254, 720)
        ratio('mm in inches', k.MM_2_INCH, 10, 254)
        ratio('point in inches', k.POINT_2_INCH, 1, 72)
        ratio('mm in points', k.MM_2_POINT, 720, 254)
        ratio('inch in TeX points', k.INCH_2_TEX_POINT, 7227, 100)
        ratio('TeX point in inches', k.TEX_POINT_2_INCH, 100, 7227)
        ratio('pica in points', k.PICA_2_POINT, 12)

@contract('U01', [Y + ':tex2den', Y + ':den2tex', Y + ':tex2nm', Y + ':nm2tex'])
def yarn_numbers(c):
    """tex: g per km; denier: g per 9 km; metric number: m per g."""
    m = c.mod(Y)
    # a yarn of a mass (g) and a length (m)
    mass, length = c.real('mass', pos=True), c.real('length', pos=True)
    c.robust(mass, length, tol=1e-2)
    tex, den, nm = mass*1000/length, mass*9000/length, length/mass
    c.ensure('tex to denier', c.eq(c.call(m.tex2den, tex), den))
    c.ensure('denier to tex', c.eq(c.call(m.den2tex, den), tex))
    c.ensure('tex to metric number', c.eq(c.call(m.tex2nm, tex), nm))
    c.ensure('metric number to tex', c.eq(c.call(m.nm2tex, nm), tex))
    c.ensure('denier and back', c.eq(m.den2tex(m.tex2den(tex)), tex))
    c.ensure('tex and back', c.eq(m.tex2den(m.den2tex(den)), den))
    c.ensure('metric number and back', c.eq(m.nm2tex(m.tex2nm(tex)), tex))
    c.ensure('tex by the metric number and back', c.eq(m.tex2nm(m.nm2tex(nm)), nm))
    c.ensure('denier to metric number', c.eq(m.tex2nm(m.den2tex(den)), nm))

@contract('U01', [Y + ':Yarn.__init__', Y + ':Yarn.tex', Y + ':Yarn.denier', Y + ':Yarn.nm'])
def yarn(c):
    """A yarn reports one mass per length in every system."""
    m = c.mod(Y)
    x = c.real('tex', pos=True)
    c.robust(x, tol=1e-2)
    y = c.call(m.Yarn, 'wool', 'red', x)
    c.ensure('tex', c.eq(y.tex, x))
    c.ensure('denier', c.eq(y.denier, 9*x))
    c.ensure('metric number', c.eq(y.nm*x, 1000))
    c.ensure('kept', y.fiber == 'wool' and y.color == 'red' and y.twist_type is None)
    for t in m.TwistType:
        c.ensure('twist', m.Yarn('wool', 'red', x, t).twist_type is t and m.Yarn('wool', 'red', x, t.value).twist_type is t)

BASE = dict(A=1189, B=1414, C=1297)

@contract('U01', [P + ':PaperSize.__init__'] + [f'{P}:PaperSize.{n}' for n in ('width', 'height', 'width_in', 'height_in', 'margin', 'name', 'orientation')])
def paper_sizes(c):
    """Every format: sides in the ratio of the square root of two, each level half the area of the one before; landscape
    exchanges the sides; inches and millimetres agree."""
    m = c.mod(P)
    letter, level = c.choice('letter', 'A', 'B', 'C'), c.choice('level', *range(11))
    margin = c.real('margin')
    name = letter + str(level)
    low = c.bool('small letter')
    p = c.call(m.PaperSize, name.lower() if low else name, 'portrait', margin)
    l = c.call(m.PaperSize, name.lower() if low else name, 'landscape', margin)
    c.ensure('names', p.name == name and l.name == name and p.orientation == 'portrait' and l.orientation == 'landscape')
    c.ensure('margin', c.and_(c.eq(p.margin, margin), c.eq(l.margin, margin)))
    c.ensure('positive', c.and_(p.width > 0, p.height > 0))
    c.ensure('portrait', p.width < p.height)
    c.ensure('ratio', c.eq(p.height*p.height, 2*p.width*p.width, order=2))
    c.ensure('size', c.eq(p.height*p.height*2**level, BASE[letter]**2, order=2))
    c.ensure('landscape exchanges the sides', c.and_(c.eq(l.width, p.height), c.eq(l.height, p.width)))
    for k in (p, l):
        c.ensure('inches', c.and_(c.eq(k.width_in*c.q(254, 10), k.width), c.eq(k.height_in*c.q(254, 10), k.height)))
    if level < 10:
        n = m.PaperSize(letter + str(level + 1), 'portrait', margin)
        c.ensure('next format: the long side is the short one', c.eq(n.height, p.width))
        c.ensure('next format: half the area', c.eq(2*n.height*n.width, p.height*p.width, order=2))

@contract('U01', [P + ':PaperSize.__init__'])
def paper_refusals(c):
    """Unknown formats and orientations are refused."""
    m = c.mod(P)
    for name in ('D4', 'A11', 'A-1', 'X0', 'B100', 'E3'):
        c.ensure_raises('unknown format', (ValueError,), m.PaperSize, name, 'portrait', 10)
    for o in ('Portrait', 'upside', '', None, 'landscapes'):
        c.ensure_raises('unknown orientation', (ValueError,), m.PaperSize, 'a4', o, 10)

@contract('U01', ['Patro.GraphicEngine.Painter.PdfPainter:PdfPainterBase.mm_to_pt', 'Patro.GraphicEngine.Painter.PdfPainter:PdfPainterBase.page_size'])
def page_in_points(c):
    """The page handed to PDF is the paper in points."""
    k = c.mod('Patro.GraphicEngine.Painter.PdfPainter').PdfPainterBase
    x = c.real('x')
    c.ensure('points', c.eq(c.call(k.mm_to_pt, x)*254, x*720))
    paper = c.mod(P).PaperSize(c.choice('name', 'a4', 'B1'), c.choice('orientation', 'portrait', 'landscape'), 10)
    w, h = c.call(lambda: k('/dev/null', None, paper).page_size)
    c.ensure('page', c.and_(c.eq(w*254, paper.width*720), c.eq(h*254, paper.height*720)))
