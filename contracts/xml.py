"""XML-mapped classes (F01).

Numbers are written as numerals that stand for str() of the number: a written number reads back as itself (CPython: repr of a
float reads back as the float).  The XML library is called as it is."""

import inspect
import itertools

from dv.contract import contract

O = 'Patro.Common.Xml.Objectivity'
SVG = 'Patro.FileFormat.Svg.SvgFormat'
VIT = 'Patro.FileFormat.Valentina.VitFormat'
VITM = 'Patro.FileFormat.Valentina.Measurement'
MODULES = (SVG, VIT, VITM)

TEXTS = ('a', '', 'none', 'a b', '<&>"\'', 'é ☃', 'M1', '#ff0000', '1.0', 'true', ' x ')
SEPARATORS = (' ', ',', ', ', ' ,', ' , ', '\n', '\t', '  ', ',\n  ')

def attribute_kind(c, attribute):
    """the kind of an attribute, or None for a class this file does not know"""
    names = [k.__name__ for k in type(attribute).__mro__]
    for n in ('BoolAttribute', 'IntAttribute', 'FloatAttribute', 'FloatListAttribute', 'NumberAttribute',
              'PercentLengthAttribute', 'TransformAttribute', 'PathDataAttribute', 'ColorAttribute',
              'StrokeStyleAttribute', 'StringAttribute'):
        if n in names:
            return n
    return None

def value_of(c, kind, name, k=0):
    """an arbitrary value of an attribute; the discrete part is chosen by k"""
    if kind == 'BoolAttribute':
        return bool(k % 2)
    if kind == 'IntAttribute':
        return c.int(name, 0) if k % 2 else c.int(name, hi=-1)
    if kind == 'FloatAttribute':
        v = c.real(name, pos=True)
        return v if k % 2 else -v
    if kind == 'FloatListAttribute':
        return [c.real(f'{name}.{i}', pos=True) for i in range(k % 4)]
    if kind == 'NumberAttribute':
        return 'inherit' if k % 3 == 2 else c.real(name, pos=True)
    if kind == 'PercentLengthAttribute':
        m = c.mod(SVG)
        x = c.real(name, pos=True)
        return (x, m.PercentValue(x), m.UnitValue(x, 'mm'), 'inherit', m.UnitValue(x, 'px'))[k % 5]
    if kind == 'TransformAttribute':
        T = c.cls('Patro.GeometryEngine.Transformation.AffineTransformation2D')
        return T([c.real(f'{name}.{i}', pos=True) for i in range(6)] + [0, 0, 1])
    if kind == 'PathDataAttribute':
        P = c.cls('Patro.GeometryEngine.Path.Path2D')
        p = P((c.real(name + '.x', pos=True), c.real(name + '.y', pos=True)))
        p.line_to((c.real(name + '.x1', pos=True), c.real(name + '.y1', pos=True)), absolute=True)
        return p
    if kind == 'ColorAttribute':
        Color = c.mod('Patro.GraphicStyle').Color
        return Color(*[(k*37 + 5*i) % 256 for i in range(3)])
    if kind == 'StrokeStyleAttribute':
        S = c.cls('Patro.GraphicStyle.StrokeStyle')
        return list(S)[k % len(list(S))]
    return TEXTS[k % len(TEXTS)]

def same_value(c, label, kind, a, b):
    if a is None or b is None:
        c.ensure(label, a is None and b is None, detail=f'{a} {b}')
    elif kind == 'PercentLengthAttribute' and not c.is_number(a) and not isinstance(a, str):
        c.ensure(label + ': kind', type(a) is type(b))
        c.ensure(label, c.eq(a.__float__(), b.__float__()))
        c.ensure(label + ': unit', getattr(a, 'unit', None) == getattr(b, 'unit', None))
    elif kind == 'FloatListAttribute':
        c.ensure_same(label, tuple(a), tuple(b))
    elif kind == 'PathDataAttribute':
        c.ensure_same(label, (c.xy(a.p0), tuple(c.xy(s.stop_point) for s in a)),
                      (c.xy(b.p0), tuple(c.xy(s.stop_point) for s in b)))
    elif c.is_number(a):
        c.ensure(label, c.eq(a, b) if c.is_number(b) else False)
    elif kind == 'TransformAttribute':
        c.ensure_same(label, c.view(a), c.view(b))
    else:
        c.ensure(label, type(a) is type(b) and a == b, detail=f'{a!r} {b!r}')

def mapped_classes(c):
    """the mapped classes of the formats that have a tag, in a stable order"""
    base = c.mod(O).XmlObjectAdaptator
    out = []
    for name in MODULES:
        m = c.mod(name)
        for k in vars(m).values():
            if isinstance(k, type) and issubclass(k, base) and k.__module__ == m.__name__:
                out.append(k)
    return sorted(out, key=lambda k: (k.__module__, k.__name__))

def has_tag(k):
    return getattr(k, '__tag__', None) is not None

def make(k, *args, **kw):
    """an object of a mapped class; owners given before the attributes are left out"""
    n = 0
    init = k.__init__
    for p in list(inspect.signature(init).parameters.values())[1:]:
        if p.kind is p.POSITIONAL_OR_KEYWORD and p.default is p.empty:
            n += 1
    return k(*([None]*n), *args, **kw)

def own_tag(c, k):
    """a subclass with a tag, for the classes whose tag is given by their context"""
    return k if has_tag(k) else type(k)(k.__name__, (k,), {'__tag__': 'element'})

def reread(c, element):
    """the element as another program reads it: printed and parsed"""
    from lxml import etree
    return etree.fromstring(etree.tostring(element))

CORE = [O + ':' + x for x in (
    'XmlObjectAdaptator.__init__', 'XmlObjectAdaptator._init_from_xml', 'XmlObjectAdaptator._init_from_kwargs',
    'XmlObjectAdaptator.to_xml', 'XmlObjectAdaptator.to_dict', 'XmlObjectAdaptatorMetaClass.__init__',
    'XmlObjectAdaptatorMetaClass.register_from_super_class', 'Attribute.__init__', 'Attribute.set_property',
    'Attribute.get_attribute', 'Attribute.set_attribute', 'Attribute.to_xml')]
KINDS = [O + ':' + x for x in ('BoolAttribute.from_xml', 'BoolAttribute.to_xml', 'IntAttribute.from_xml', 'FloatAttribute.from_xml',
                               'FloatListAttribute.from_xml', 'FloatListAttribute.to_xml', 'StringAttribute.from_xml')]
SVGKINDS = [SVG + ':' + x for x in ('InheritAttribute.from_xml', 'NumberAttribute._from_xml', 'PercentLengthAttribute._from_xml',
                                    'PercentLengthAttribute.to_xml', 'TransformAttribute.from_xml', 'TransformAttribute.to_xml',
                                    'PathDataAttribute.from_xml', 'PathDataAttribute.to_xml')]
VITKINDS = [VIT + ':' + x for x in ('ColorAttribute.from_xml', 'StrokeStyleAttribute.from_xml', 'StrokeStyleAttribute.to_xml')]

def check_class(c, k, presence):
    """write an object with the attributes of which presence(index) holds, and read it back"""
    attributes = k.__attributes__
    kw, kinds = {}, {}
    for i, a in enumerate(attributes):
        kind = attribute_kind(c, a)
        if kind is None:
            continue
        kinds[a.py_attribute] = kind
        if presence(i):
            kw[a.py_attribute] = value_of(c, kind, f'{k.__name__}.{a.py_attribute}', i + len(k.__name__))
    defaults = {a.py_attribute: a.default for a in attributes}
    obj = make(k, **kw)
    for n, kind in kinds.items():
        same_value(c, f'{k.__name__}.{n} as given', kind, getattr(obj, n), kw.get(n, defaults[n]))
    element = obj.to_xml()
    c.ensure(f'{k.__name__}: tag', element.tag == k.__tag__)
    for a in attributes:
        n = a.py_attribute
        if n in kinds:
            present = getattr(obj, n) is not None
            c.ensure(f'{k.__name__}.{n} is written exactly when it is set', (a.xml_attribute in element.attrib) == present)
    for what, e in (('', element), (' printed', reread(c, element))):
        back = make(k, e)
        for n, kind in kinds.items():
            same_value(c, f'{k.__name__}.{n} read back{what}', kind, getattr(obj, n), getattr(back, n))
    return obj

def all_classes(c, presence):
    k = c.choice('class', *mapped_classes(c))
    check_class(c, own_tag(c, k), presence)

@contract('F01', CORE + KINDS + SVGKINDS + VITKINDS, deadline=240)
def every_class_full(c):
    """Every mapped class: with all attributes set, written and read back."""
    all_classes(c, lambda i: True)

@contract('F01', CORE + KINDS, deadline=240)
def every_class_empty(c):
    """Every mapped class: without attributes, written and read back."""
    all_classes(c, lambda i: False)

@contract('F01', CORE + KINDS + SVGKINDS + VITKINDS, deadline=240)
def every_class_partial(c):
    """Every mapped class: with every other, or one in three, of its attributes."""
    n, r = c.choice('presence', (2, 0), (2, 1), (3, 0), (3, 1), (3, 2))
    all_classes(c, lambda i: i % n == r)

####################################################################################################
# the mapping itself, for classes of every form

def fresh_classes(c):
    """a family of mapped classes: attributes of mixins, their parents and the class itself, renamed or not, with defaults"""
    m = c.mod(O)
    class RootMixin:
        __attributes__ = (m.IntAttribute('root', 'root-number'),)
    class ChildMixin(RootMixin):
        __attributes__ = (m.FloatAttribute('child', default=None),)
    class OtherMixin:
        __attributes__ = (m.FloatListAttribute('numbers', 'the-numbers'), m.BoolAttribute('flag'))
    class Base(ChildMixin, m.XmlObjectAdaptator):
        __tag__ = 'base'
        __attributes__ = (m.StringAttribute('label', default='unnamed'),)
    class Leaf(OtherMixin, Base):
        __tag__ = 'leaf'
        __attributes__ = (m.FloatAttribute('x'), m.FloatAttribute('y', 'y-pos', 0))
    class Sibling(OtherMixin, m.XmlObjectAdaptator):
        __tag__ = 'sibling'
    class TextLeaf(OtherMixin, m.TextXmlObjectAdaptator):
        __tag__ = 'text'
        __attributes__ = (m.FloatAttribute('x'),)
    return Base, Leaf, Sibling, TextLeaf

INHERITED = dict(
    Base={'root', 'child', 'label'},
    Leaf={'numbers', 'flag', 'root', 'child', 'label', 'x', 'y'},
    Sibling={'numbers', 'flag'},
    TextLeaf={'numbers', 'flag', 'x'},
)

@contract('F01', CORE)
def inheritance(c):
    """A class has the attributes of all its parents and its own, and none of another class."""
    for k in fresh_classes(c):
        names = [a.py_attribute for a in k.__attributes__]
        c.ensure(f'{k.__name__}: attributes', set(names) == INHERITED[k.__name__], detail=str(names))
        obj = k()
        for n in INHERITED[k.__name__]:
            default = {'label': 'unnamed', 'y': 0}.get(n)
            c.ensure(f'{k.__name__}.{n}: default', getattr(obj, n) == default)
        for n in INHERITED['Leaf'] - INHERITED[k.__name__]:
            c.ensure(f'{k.__name__} has no {n}', not hasattr(obj, n))
        c.ensure(f'{k.__name__}: dictionary', set(obj.to_dict()) == INHERITED[k.__name__])
        c.ensure(f'{k.__name__}: dictionary of an instance', k.get_dict(obj) == obj.to_dict())
        c.ensure(f'{k.__name__}: dictionary of an instance without', k.get_dict(obj, exclude=('x', 'label')) == obj.to_dict(exclude=('x', 'label')))
        c.ensure(f'{k.__name__}: dictionary without', set(obj.to_dict(exclude=('x', 'label')))
                 == INHERITED[k.__name__] - {'x', 'label'})

@contract('F01', CORE + KINDS, deadline=200, bounded='classes of up to 5 attributes, every subset present')
def any_presence(c):
    """A class with inherited, renamed and default attributes: every subset of them, written and read back."""
    Base, Leaf, Sibling, TextLeaf = fresh_classes(c)
    k = c.choice('class', Base, Leaf, Sibling, TextLeaf)
    mask = c.choice('present', *range(2**len(k.__attributes__)))
    check_class(c, k, lambda i: mask >> i & 1)

@contract('F01', CORE)
def properties(c):
    """Attributes are per object: setting one changes it, and nothing else."""
    Base, Leaf, Sibling, TextLeaf = fresh_classes(c)
    x, y, z, t = c.reals('x', 'y', 'z', 't')
    a, b = Leaf(x=x, y=y), Leaf(x=z)
    n = c.choice('attribute', 'x', 'y', 'child')
    setattr(a, n, t)
    values = dict(x=x, y=y, child=None)
    values[n] = t
    for m, v in values.items():
        same_value(c, f'{m} of the object', 'FloatAttribute', getattr(a, m), v)
        same_value(c, f'{m} of the dictionary', 'FloatAttribute', a.to_dict()[m], v)
    c.ensure('other object', c.eq(b.x, z) and b.y == 0 and b.child is None)
    back = Leaf(reread(c, a.to_xml()))
    for m, v in values.items():
        same_value(c, f'{m} read back', 'FloatAttribute', getattr(back, m), v)

@contract('F01', CORE)
def extra_attributes(c):
    """Attributes given when writing are written; attributes of another class are ignored when reading."""
    Base, Leaf, Sibling, TextLeaf = fresh_classes(c)
    x = c.real('x')
    a = Leaf(x=x, label='l')
    e = a.to_xml(type='t')
    c.ensure('given attribute', e.attrib['type'] == 't')
    c.ensure('written attributes', set(e.attrib) == {'x', 'label', 'type', 'y-pos'}, detail=str(dict(e.attrib)))
    c.ensure('object unchanged', set(a.to_dict()) == INHERITED['Leaf'])
    back = Leaf(e)
    c.ensure('value', c.eq(back.x, x) and back.label == 'l')

@contract('F01', [O + ':TextXmlObjectAdaptator.' + x for x in ('__init__', '_init_from_xml', 'to_xml')], bounded='texts from a list')
def text_elements(c):
    """The text of an element is kept."""
    Base, Leaf, Sibling, TextLeaf = fresh_classes(c)
    x = c.real('x')
    text = c.choice('text', *[t for t in TEXTS])
    a = TextLeaf(text=text, x=x)
    c.ensure('text', a.text == text)
    for e in (a.to_xml(), reread(c, a.to_xml())):
        back = TextLeaf(e)
        c.ensure('text read back', back.text == text, detail=repr(back.text))
        c.ensure('attribute read back', c.eq(back.x, x))
    c.ensure('no text', TextLeaf().text == '' and TextLeaf(TextLeaf().to_xml()).text == '')

####################################################################################################
# kinds of attributes

@contract('F01', [O + ':FloatListAttribute.from_xml', O + ':FloatListAttribute.to_xml'], bounded='lists of up to 4 numbers; numbers arbitrary')
def number_lists(c):
    """Lists of numbers: any mix of comma and white space separates, leading and trailing ones are ignored."""
    K = c.mod(O).FloatListAttribute
    n = c.choice('n', 0, 1, 2, 3, 4)
    values = [c.real(f'x{i}', pos=True) for i in range(n)]
    seps = [c.choice(f's{i}', ' ', ',', ', ', '\n\t') for i in range(max(n-1, 0))]
    before, after = c.choice('around', ('', ''), (' ', '\n'))
    text = before
    for i, v in enumerate(values):
        text += str(v) + (seps[i] if i < n-1 else '')
    text += after
    c.ensure_same('list', tuple(c.call(K.from_xml, text)), tuple(values))
    c.ensure_same('list read back', tuple(K.from_xml(K.to_xml(values))), tuple(values))
    c.ensure_same('Python list', tuple(K.from_xml(values)), tuple(values))
    c.ensure_same('Python tuple', tuple(K.from_xml(tuple(values))), tuple(values))

@contract('F01', [O + ':FloatListAttribute.from_xml', O + ':FloatListAttribute.to_xml', O + ':FloatAttribute.from_xml', O + ':Attribute.to_xml'],
          bounded='runs on the untouched code: lists of up to 3000 numbers', concrete_only=True)
def numbers_to_the_last_digit(c):
    """Written numbers are read back as they were, to the last digit, in lists of any length."""
    import random
    K, A = c.mod(O).FloatListAttribute, c.mod(O).FloatAttribute('x')
    n = c.choice('n', 6, 1, 0, 40, 1500, 3000)
    r = random.Random(c.int('seed', 0, 10**9))
    values = [r.choice((lambda: r.uniform(-1, 1), lambda: r.uniform(-1, 1)*10**r.randint(-12, 12), lambda: float(r.randint(-10**6, 10**6)),
                        lambda: 1/3, lambda: 0.1 + 0.2, lambda: 0.))() for i in range(n)]
    c.ensure('list', list(K.from_xml(K.to_xml(values))) == values)
    seps = [r.choice(SEPARATORS) for v in values]
    text = ''.join(repr(v) + s for v, s in zip(values, seps[:-1] + ['']))
    c.ensure('separators', list(K.from_xml(text)) == values if values else True)
    for v in values[:6]:
        c.ensure('number', A.from_xml(A.to_xml(v)) == v)

@contract('F01', [O + ':FloatListAttribute.from_xml'])
def number_list_separators(c):
    """Every documented separator style, before, between and after the numbers."""
    K = c.mod(O).FloatListAttribute
    x, y, z = (c.real(n, pos=True) for n in 'xyz')
    for a, b in itertools.product(SEPARATORS, SEPARATORS):
        c.ensure_same(f'{a!r} {b!r}', tuple(K.from_xml(f'{x}{a}{y}{b}{z}')), (x, y, z))
    for a in (' ', '\n', '\t', '  '):
        c.ensure_same(f'around {a!r}', tuple(K.from_xml(f'{a}{x} {y}{a}')), (x, y))
    c.ensure('none', K.from_xml('none') is None and K.from_xml(None) is None)
    c.ensure_raises('no number', ValueError, K.from_xml, 'a b')

@contract('F01', [O + ':BoolAttribute.from_xml', O + ':BoolAttribute.to_xml'])
def booleans(c):
    """Booleans: both notations, both values; anything else is refused."""
    K = c.mod(O).BoolAttribute
    for text, v in (('true', True), ('1', True), ('false', False), ('0', False)):
        c.ensure(text, K.from_xml(text) is v)
    for v in (True, False):
        c.ensure(f'{v} read back', K.from_xml(K.to_xml(v)) is v)
        c.ensure(f'{v} from Python', K.from_xml(v) is v)
    for text in ('', 'yes', '2', 'True ', 'on'):
        c.ensure_raises(f'{text!r} refused', ValueError, K.from_xml, text)

@contract('F01', [O + ':IntAttribute.from_xml', O + ':FloatAttribute.from_xml', O + ':StringAttribute.from_xml', O + ':Attribute.to_xml'])
def plain_kinds(c):
    """Integers, numbers and texts: written, read back, and given from Python."""
    m = c.mod(O)
    i, x = c.int('i'), c.real('x')
    c.ensure('integer', c.eq(m.IntAttribute.from_xml(m.IntAttribute.to_xml(i)), i))
    c.ensure('integer from Python', c.eq(m.IntAttribute.from_xml(i), i))
    c.ensure('number', c.eq(m.FloatAttribute.from_xml(m.FloatAttribute.to_xml(x)), x))
    c.ensure('number from Python', c.eq(m.FloatAttribute.from_xml(x), x))
    c.ensure('number from integer', c.eq(m.FloatAttribute.from_xml(i), i))
    for t in TEXTS:
        c.ensure(f'{t!r}', m.StringAttribute.from_xml(m.StringAttribute.to_xml(t)) == t)
    c.ensure_raises('no integer', ValueError, m.IntAttribute.from_xml, 'a')
    c.ensure_raises('no number', ValueError, m.FloatAttribute.from_xml, 'a')

@contract('F01', SVGKINDS[:4])
def svg_lengths(c):
    """SVG numbers and lengths: plain, with every unit, per cent, inherited."""
    m = c.mod(SVG)
    x = c.real('x')
    N, L = m.NumberAttribute, m.PercentLengthAttribute
    c.ensure('number', c.eq(N.from_xml(f'{x}'), x))
    c.ensure('inherit', N.from_xml('inherit') == 'inherit' and L.from_xml('inherit') == 'inherit'
             and L.to_xml('inherit') == 'inherit')
    c.ensure('plain', c.eq(L.from_xml(f'{x}'), x))
    c.ensure('plain read back', c.eq(L.from_xml(L.to_xml(x)), x))
    c.ensure('plain from Python', c.eq(L.from_xml(x), x))
    for u in ('em', 'ex', 'px', 'in', 'cm', 'mm', 'pt', 'pc'):
        v = c.call(L.from_xml, f'{x}{u}')
        c.ensure(u, type(v) is m.UnitValue and v.unit == u and c.eq(v.__float__(), x))
        w = L.from_xml(L.to_xml(v))
        c.ensure(u + ' read back', type(w) is m.UnitValue and w.unit == u and c.eq(w.__float__(), x))
    v = c.call(L.from_xml, f'{x}%')
    c.ensure('%', type(v) is m.PercentValue and c.eq(v.__float__()*100, x))
    w = L.from_xml(L.to_xml(v))
    c.ensure('% read back', type(w) is m.PercentValue and c.eq(w.__float__()*100, x))

@contract('F01', VITKINDS, concrete_only=True, cases=1, bounded='the finite tables of stroke styles and colour names, completely')
def valentina_kinds(c):
    """Valentina colours and stroke styles: every value, from its name, from Python, and read back."""
    m = c.mod(VIT)
    S = c.cls('Patro.GraphicStyle.StrokeStyle')
    names = dict(dashDotDotLine='DashDotDotLine', dashDotLine='DashDotLine', dashLine='DashLine', dotLine='DotLine',
                 hair='SolidLine', none='NoPen')
    K = m.StrokeStyleAttribute
    for name, style in names.items():
        c.ensure(name, K.from_xml(name) is S[style])
        c.ensure(name + ' read back', K.from_xml(K.to_xml(S[style])) is S[style] and K.to_xml(S[style]) == name)
        c.ensure(name + ' from Python', K.from_xml(S[style]) is S[style])
    K = m.ColorAttribute
    Colors = c.mod('Patro.GraphicStyle').Colors
    for name in Colors.iter_names():
        c.ensure(name, K.from_xml(name) == Colors[name])
        c.ensure(name + ' read back', K.from_xml(K.to_xml(Colors[name])) == Colors[name])
        c.ensure(name + ' from Python', K.from_xml(Colors[name]) == Colors[name])

# the names the formats prescribe: element -> (class, attributes read)
PAINT = 'fill stroke stroke-linecap stroke-linejoin stroke-miterlimit stroke-width stroke-dasharray id style transform'
SVG_ELEMENTS = dict(
    circle='cx cy r ' + PAINT, ellipse='cx cy rx ry ' + PAINT, line='x1 y1 x2 y2 ' + PAINT,
    rect='x y width height rx ry ' + PAINT, polyline='points ' + PAINT, polygon='points ' + PAINT,
    path='d pathLength ' + PAINT, g='font-size font-family clip-path ' + PAINT,
    text='x y dx dy font-size font-family fill stroke id style transform class',
    svg='version viewBox preserveAspectRatio zoomAndPan x y width height', use='x y width height', image='x y width height',
)
SVG_PYTHON = {'stroke-linecap': 'stroke_line_cap', 'stroke-linejoin': 'stroke_line_join', 'stroke-miterlimit': 'stroke_miter_limit',
              'stroke-width': 'stroke_width', 'stroke-dasharray': 'stroke_dasharray', 'd': 'path_data', 'pathLength': 'path_length',
              'viewBox': 'view_box', 'preserveAspectRatio': 'preserve_aspect_ratio', 'zoomAndPan': 'zoom_and_pan',
              'class': '_class', 'font-size': 'font_size', 'font-family': 'font_family', 'clip-path': 'clip_path'}
POINT = 'id name mx my'
LINE = ' lineColor:line_color typeLine:line_style'
VIT_ELEMENTS = dict(
    SinglePoint=POINT + ' x y',
    AlongLinePoint=POINT + LINE + ' firstPoint:first_point secondPoint:second_point length',
    EndLinePoint=POINT + LINE + ' basePoint:base_point length angle',
    NormalPoint=POINT + LINE + ' firstPoint:first_point secondPoint:second_point length angle',
    LineIntersectPoint=POINT + ' p1Line1:point1_line1 p2Line1:point2_line1 p1Line2:point1_line2 p2Line2:point2_line2',
    PointOfContact=POINT + ' firstPoint:first_point secondPoint:second_point center radius',
    PointOfIntersection=POINT + ' firstPoint:first_point secondPoint:second_point',
    Line='id' + LINE + ' firstPoint:first_point secondPoint:second_point',
    SimpleInteractiveSpline='id point1:first_point point4:second_point length1 length2 angle1 angle2 color:line_color',
    ModelingPoint='id idObject:object_id type inUse:in_use mx my', ModelingSpline='id idObject:object_id type inUse:in_use',
    DetailNode='idObject:object_id type reverse',
)
VIT_TYPES = dict(SinglePoint='single', AlongLinePoint='alongLine', EndLinePoint='endLine', NormalPoint='normal',
                 LineIntersectPoint='lineIntersect', PointOfContact='pointOfContact', PointOfIntersection='pointOfIntersection',
                 SimpleInteractiveSpline='simpleInteractive')

def read_by_name(c, k, names):
    """each attribute, alone in an element under its standard name, is read into its Python attribute and no other"""
    from lxml import etree
    for xml, py in names:
        known = [a for a in k.__attributes__ if a.py_attribute == py]
        c.ensure(f'{k.__name__} has {py}', bool(known))
        if not known:
            continue
        kind = attribute_kind(c, known[-1])
        if kind is None:
            continue
        value = value_of(c, kind, f'{k.__name__}.{py}', 3)
        text = known[-1].to_xml(value)
        obj = make(k, etree.Element('e', {xml: text}))
        same_value(c, f'{k.__name__}: {xml}', kind, getattr(obj, py), value)
        for a in k.__attributes__:
            if a.py_attribute != py:
                c.ensure(f'{k.__name__}: {xml} is not {a.py_attribute}', getattr(obj, a.py_attribute) == a.default)

@contract('F01', CORE + KINDS + SVGKINDS)
def svg_names(c):
    """SVG elements and their attributes have the names of the standard."""
    base = c.mod(O).XmlObjectAdaptator
    m = c.mod(SVG)
    tag = c.choice('element', *SVG_ELEMENTS)
    ks = [k for k in vars(m).values() if isinstance(k, type) and issubclass(k, base) and getattr(k, '__tag__', None) == tag]
    c.ensure(f'one class for {tag}', len(ks) == 1, detail=str(ks))
    read_by_name(c, ks[0], [(x, SVG_PYTHON.get(x, x)) for x in SVG_ELEMENTS[tag].split()])

@contract('F01', CORE + KINDS + VITKINDS)
def valentina_names(c):
    """Valentina elements and their attributes have the names of the format."""
    m = c.mod(VIT)
    name = c.choice('element', *VIT_ELEMENTS)
    k = getattr(m, name)
    read_by_name(c, k, [(x.split(':')[0], x.split(':')[-1]) for x in VIT_ELEMENTS[name].split()])
    if name in VIT_TYPES:
        c.ensure('type written', k(id=1).to_xml().attrib.get('type') == VIT_TYPES[name])
        c.ensure('tag written', k(id=1).to_xml().tag == ('spline' if 'Spline' in name else 'point'))
