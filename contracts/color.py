"""Colours and the colour database (S01)."""

import colorsys

from dv.contract import contract

M = 'Patro.GraphicStyle.Color.ColorDataBase'
C = M + ':Color.'
DB = M + ':ColorDataBase.'
COMPONENTS = ('red', 'green', 'blue')

def color_class(c):
    return c.mod(M).Color

def floats(color):
    return [getattr(color, x + '_float') for x in COMPONENTS]

def ints(color):
    return [getattr(color, x) for x in COMPONENTS]

def nearest(c, label, k, x):
    """k is a whole level nearest to 255 x"""
    c.ensure(f'{label}: not above', c.le(k*2, x*510 + 1))
    c.ensure(f'{label}: not below', c.ge(k*2, x*510 - 1))

NEW = [C + '__init__', C + '_check_value', C + '_to_float']
GET = [C + f'{x}{s}' for x in COMPONENTS for s in ('', '_float')] + [C + '_to_int']

@contract('S01', NEW + GET)
def from_levels(c):
    """Three whole levels: each component is its level, and level/255 as a number."""
    levels = [c.int(x, 0, 255) for x in COMPONENTS]
    color = c.call(color_class(c), *levels)
    for i, x in enumerate(COMPONENTS):
        c.ensure(f'{x} as a number', c.eq(floats(color)[i]*255, levels[i]))
        c.ensure(f'{x} as a level', c.eq(ints(color)[i], levels[i]))
    c.ensure('no name', color.name is None)

@contract('S01', NEW + GET)
def from_numbers(c):
    """Three numbers of [0, 1]: kept as they are, shown as the nearest level."""
    values = [c.real(x, lo=0, hi=1) for x in COMPONENTS]
    color = c.call(color_class(c), *values)
    for i, x in enumerate(COMPONENTS):
        c.ensure(f'{x} kept', c.eq(floats(color)[i], values[i]))
        nearest(c, f'{x} level', ints(color)[i], values[i])
        c.ensure(f'{x} level in range', c.and_(c.ge(ints(color)[i], 0), c.le(ints(color)[i], 255)))

@contract('S01', NEW + GET)
def level_and_number(c):
    """The number a level reads as builds the same level again."""
    level = [c.int(x, 0, 255) for x in COMPONENTS]
    a = c.call(color_class(c), *level)
    b = c.call(color_class(c), *[1.*x for x in floats(a)])
    for i, x in enumerate(COMPONENTS):
        c.ensure(f'{x}', c.eq(floats(a)[i], floats(b)[i]))
        c.ensure(f'{x} level', c.eq(ints(b)[i], level[i]))

@contract('S01', NEW)
def level_out_of_range(c):
    """A level below 0 or above 255 is refused, for each component."""
    k = c.choice('component', 0, 1, 2)
    levels = [c.int(x, 0, 255) for x in COMPONENTS]
    bad = c.int('bad')
    c.assume(c.or_(bad < 0, bad > 255))
    levels[k] = bad
    c.ensure_raises('refused', ValueError, color_class(c), *levels)

@contract('S01', NEW)
def number_out_of_range(c):
    """A number below 0 or above 1 is refused, for each component."""
    k = c.choice('component', 0, 1, 2)
    values = [c.real(x, lo=0, hi=1) for x in COMPONENTS]
    bad = c.real('bad')
    c.assume(c.or_(bad < 0, bad > 1))
    values[k] = bad
    c.ensure_raises('refused', ValueError, color_class(c), *values)

SET = [C + x for x in COMPONENTS] + [C + '_check_value']

@contract('S01', SET)
def set_component(c):
    """Setting a component sets it and only it."""
    values = [c.real(x, lo=0, hi=1) for x in COMPONENTS]
    color = color_class(c)(*values)
    k = c.choice('component', 0, 1, 2)
    if c.bool('by level'):
        v = c.int('level', 0, 255)
        number = v/c.q(255)
    else:
        v = number = c.real('value', lo=0, hi=1)
    c.call(setattr, color, COMPONENTS[k], v)
    for i, x in enumerate(COMPONENTS):
        c.ensure(x, c.eq(floats(color)[i], number if i == k else values[i]))

@contract('S01', SET)
def set_component_out_of_range(c):
    """A refused component leaves the colour as it was."""
    values = [c.real(x, lo=0, hi=1) for x in COMPONENTS]
    color = color_class(c)(*values)
    k = c.choice('component', 0, 1, 2)
    if c.bool('by level'):
        bad = c.int('bad level')
        c.assume(c.or_(bad < 0, bad > 255))
    else:
        bad = c.real('bad value')
        c.assume(c.or_(bad < 0, bad > 1))
    c.ensure_raises('refused', ValueError, setattr, color, COMPONENTS[k], bad)
    for i, x in enumerate(COMPONENTS):
        c.ensure(f'{x} kept', c.eq(floats(color)[i], values[i]))

@contract('S01', NEW + [C + 'clone'])
def copies(c):
    """A copy has the components (and, by clone, the name) and is independent of the original."""
    values = [c.real(x, lo=0, hi=1) for x in COMPONENTS]
    name = c.choice('name', None, 'black')
    Color = color_class(c)
    a = Color(*values, name=name)
    b = c.call(Color, a) if c.bool('by constructor') else c.call(a.clone)
    for i, x in enumerate(COMPONENTS):
        c.ensure(x, c.eq(floats(b)[i], values[i]))
    other = c.choice('other name', 'b', None)
    r = Color(a, name=other)
    c.ensure('given name', r.name == other)
    c.ensure('clone keeps the name', a.clone().name == name)
    c.ensure('type', type(b) is Color)
    k = c.choice('component', 0, 1, 2)
    v = c.real('v', lo=0, hi=1)
    setattr(b, COMPONENTS[k], v)
    b.name = 'other'
    for i, x in enumerate(COMPONENTS):
        c.ensure(f'{x} of the original kept', c.eq(floats(a)[i], values[i]))
        c.ensure(f'{x} of the copy', c.eq(floats(b)[i], v if i == k else values[i]))
    c.ensure('name of the original kept', a.name == name and b.name == 'other')

class ColorSysContract:
    """the standard library's colour model conversions: any answer in [0, 1], the call recorded"""
    def __init__(self, c):
        self.c, self.calls, self.answers = c, [], []
    def __getattr__(self, name):
        if name not in ('hls_to_rgb', 'hsv_to_rgb', 'rgb_to_hls', 'rgb_to_hsv'):
            raise AttributeError(name)
        def call(*args):
            out = tuple(self.c.real(f'{name}{len(self.calls)}.{i}', lo=0, hi=1) for i in range(3))
            self.calls.append((name, args))
            self.answers.append(out)
            return out
        return call

def with_colorsys(c, f, *args, **kw):
    """the real answer and the calls made (machine numbers: the standard library's answer)"""
    m = c.mod(M)
    if not c.symbolic:
        return c.call(f, *args, **kw), None
    if getattr(m, 'colorsys', None) is not colorsys:
        c.not_applicable('the conversion is not called by its module')
    stub = ColorSysContract(c)
    old = m.colorsys
    m.colorsys = stub
    try:
        r = c.call(f, *args, **kw)
    finally:
        m.colorsys = old
    if not stub.calls:
        c.not_applicable('another conversion')
    return r, stub

@contract('S01', NEW)
def from_hue(c):
    """Hue, light, saturation and hue, value, saturation go to the conversion of that name, in its order."""
    h, l, s = (c.real(x, lo=0, hi=1) for x in ('h', 'l', 's'))
    model, key = c.choice('model', ('hls', 'light'), ('hsv', 'value'))
    kw = dict(hue=h, saturation=s)
    kw[key] = l
    color, stub = with_colorsys(c, color_class(c), **kw)
    if stub is None:
        c.ensure_same('components', tuple(floats(color)),
                      colorsys.hls_to_rgb(h, l, s) if model == 'hls' else colorsys.hsv_to_rgb(h, s, l))
        return
    c.ensure('one conversion', len(stub.calls) == 1 and stub.calls[0][0] == model + '_to_rgb')
    c.ensure_same('arguments', stub.calls[0][1], (h, l, s) if model == 'hls' else (h, s, l))
    c.ensure_same('components', tuple(floats(color)), stub.answers[0])

@contract('S01', [C + 'hls', C + 'hsv'])
def to_hue(c):
    """hls and hsv are the conversion of the components."""
    values = tuple(c.real(x, lo=0, hi=1) for x in COMPONENTS)
    model = c.choice('model', 'hls', 'hsv')
    color = color_class(c)(*values)
    r, stub = with_colorsys(c, getattr, color, model)
    if stub is None:
        c.ensure_same('result', tuple(r), getattr(colorsys, 'rgb_to_' + model)(*values))
        return
    c.ensure('one conversion', len(stub.calls) == 1 and stub.calls[0][0] == 'rgb_to_' + model)
    c.ensure_same('arguments', stub.calls[0][1], values)
    c.ensure_same('result', tuple(r), stub.answers[0])

@contract('S01', NEW)
def hue_alone(c):
    """A hue without light or value is refused."""
    kw = c.choice('given', dict(hue=.5), dict(hue=.5, saturation=.5))
    c.ensure_raises('refused', ValueError, color_class(c), **kw)

####################################################################################################
# notations: strings are made and read by C code; all levels are run

@contract('S01', NEW + [C + '__str__', C + '__repr__', C + '__eq__'] + GET, concrete_only=True, cases=1,
          bounded='all 256 levels of each component, the other two over 0, 9, 16, 128, 255; machine arithmetic')
def notations(c):
    """Every level survives each notation in machine arithmetic, and prints as #rrggbb."""
    Color = color_class(c)
    others = ((0, 255), (9, 16), (128, 0), (255, 128), (16, 9))
    for k in range(3):
        for v in range(256):
            for a, b in others:
                t = [a, b]
                t.insert(k, v)
                color = Color(*t)
                text = '#' + ''.join(f'{x//16:x}{x%16:x}' for x in t)
                if str(color) != text or repr(color) != f'Color({text})':
                    c.ensure(f'{t} prints as {text}', False, detail=str(color))
                if ints(color) != t:
                    c.ensure(f'{t} as levels', False, detail=str(ints(color)))
                for what, other in (('#rrggbb', lambda: Color(text)), ('#RRGGBB', lambda: Color(text.upper())),
                                    ('numbers', lambda: Color(*floats(color))), ('copy', lambda: Color(color)),
                                    ('clone', color.clone),
                                    ('quotients', lambda: Color(*[x/255 for x in t])),
                                    ('hls', lambda: Color(**dict(zip(('hue', 'light', 'saturation'), color.hls)))),
                                    ('hsv', lambda: Color(**dict(zip(('hue', 'saturation', 'value'), color.hsv))))):
                    o = other()
                    if ints(o) != t or str(o) != text or not o == color or o != color:
                        c.ensure(f'{text} by {what}', False, detail=str(o))
    c.ensure('all levels', True)

@contract('S01', [C + '__eq__'], concrete_only=True, cases=400)
def equality(c):
    """Colours are equal exactly when their levels are, whatever their names."""
    Color = color_class(c)
    a = [c.int(f'a{i}', 0, 255) for i in range(3)]
    b = [c.int(f'b{i}', 0, 255) if c.bool(f'differ{i}') else a[i] for i in range(3)]
    x = Color(*a, name=c.choice('name a', None, 'black', 'white'))
    y = Color(*b, name=c.choice('name b', None, 'black', 'white'))
    c.ensure('equal exactly when the levels are', (x == y) == (a == b))
    c.ensure('different exactly when the levels are', (x != y) == (a != b))
    c.ensure('equal to a notation', (x == str(y)) == (a == b))
    c.ensure('not equal to none', not x == None)

@contract('S01', NEW, concrete_only=True, cases=40)
def strings_refused(c):
    """A string that is no notation is refused."""
    s = c.choice('string', '', 'black', '0000ff', 'rgb(0,0,0)', ' #000000', '#gg0000', '#00zz00', '#0000-+', 'None')
    c.ensure_raises('refused', ValueError, color_class(c), s)

####################################################################################################
# database

@contract('S01', [DB + x for x in ('__len__', '__iter__', '__contains__', '__getitem__', '__getattr__', 'iter_names', 'add')],
          concrete_only=True, cases=300)
def database(c):
    """The database is a dictionary of its colours, for any history of additions."""
    m = c.mod(M)
    db = m.ColorDataBase()
    model = {}
    names = ('red', 'dark_red', 'a1', 'Bleu', 'bleu')
    for step in range(c.choice('steps', 0, 1, 2, 4, 8)):
        name = c.choice(f'name {step}', *names)
        color = m.Color(*[c.int(f'c{step}{i}', 0, 255) for i in range(3)])
        db.add(name, color)
        model[name] = color
        c.ensure('length', len(db) == len(model))
        for n in names:
            c.ensure('membership', (n in db) == (n in model))
            if n in model:
                c.ensure('item', db[n] is model[n])
                c.ensure('attribute', getattr(db, n) is model[n])
                c.ensure('by name', db.ensure_color(n) is model[n])
            else:
                c.ensure_raises('no item', KeyError, db.__getitem__, n)
                c.ensure_raises('no colour of the name', KeyError, db.ensure_color, n)
        c.ensure('names', sorted(db.iter_names()) == sorted(model))
        c.ensure('colours', sorted(map(id, db)) == sorted(map(id, model.values())))

@contract('S01', [DB + 'ensure_color'], concrete_only=True, cases=300)
def ensure_color(c):
    """None, a colour, a notation or a name; anything else is refused."""
    m = c.mod(M)
    db = m.ColorDataBase()
    t = [c.int(f'c{i}', 0, 255) for i in range(3)]
    color = m.Color(*t)
    other = m.Color(255 - t[0], t[1], t[2])
    db.add('other', other)
    c.ensure('none', db.ensure_color(None) is None)
    c.ensure('colour', db.ensure_color(color) is color)
    made = db.ensure_color(str(color))
    c.ensure('notation', type(made) is m.Color and ints(made) == t)
    c.ensure('name', db.ensure_color('other') is other)
    for bad in (0, 1.5, (1, 2, 3), b'#000000', object()):
        c.ensure_raises('refused', ValueError, db.ensure_color, bad)
    c.ensure('nothing added', list(db.iter_names()) == ['other'])

####################################################################################################
# named colours

@contract('S01', ['Patro.GraphicStyle.Color:__init__'], concrete_only=True, cases=1,
          bounded='the finite tables of the module, completely')
def named_colors(c):
    """Each name has the value its first table gives it, the tables agree with their published sources."""
    p = c.mod('Patro.GraphicStyle.Color')
    d = c.mod('Patro.GraphicStyle.Color.color_data')
    tables = [getattr(d, x + '_COLORS') for x in ('BASE', 'TABLEAU', 'XKCD', 'CSS4', 'QML', 'VALENTINA')]
    expected = {}
    for t in tables:
        for name, value in t.items():
            expected.setdefault(name.replace(' ', '_'), value)
    c.ensure('names', sorted(p.Colors.iter_names()) == sorted(expected))
    for name, value in expected.items():
        color = p.Colors[name]
        text = '#' + ''.join(f'{x:02x}' for x in ints(color))
        c.ensure(f'{name} has its value', text == str(value).lower(), detail=f'{text} {value}')
        c.ensure(f'{name} knows its name', color.name == name)
        c.ensure(f'{name} by ensure_color', p.Colors.ensure_color(name) is color)
    c.ensure('length', len(p.Colors) == len(expected))
    import matplotlib.colors as mc
    css = {k.lower(): v.lower() for k, v in mc.CSS4_COLORS.items()}
    for what, table in (('CSS4', d.CSS4_COLORS), ('QML', d.QML_COLORS), ('VALENTINA', d.VALENTINA_COLORS)):
        for name, value in table.items():
            if name.lower() in css:
                c.ensure(f'{what} {name}', str(value).lower() == css[name.lower()], detail=str(value))
    xkcd = {k.split(':')[-1].replace('grey', 'gray'): v.lower() for k, v in mc.XKCD_COLORS.items()}
    for name, value in d.XKCD_COLORS.items():
        k = name.split(':')[-1].replace('grey', 'gray')
        if k in xkcd:
            c.ensure(f'XKCD {name}', str(value).lower() == xkcd[k], detail=str(value))
    tab = {k.split(':')[-1]: v.lower() for k, v in mc.TABLEAU_COLORS.items()}
    for name, value in d.TABLEAU_COLORS.items():
        k = name.split(':')[-1]
        if k in tab:
            c.ensure(f'TABLEAU {name}', str(value).lower() == tab[k], detail=str(value))
