"""Valentina pattern files (P02): what is written is read back.

A pattern is written by the real writer, then read by the real reader in the situation of a process that has not given any identifier
yet; the measurement file is taken by its contract (Q01: reading it gives the measurements)."""

import os
import shutil
import tempfile

from dv.contract import contract
from contracts.sketch import Fixture, COMMON, O, P, S

F = 'Patro.FileFormat.Valentina.Pattern'
V = 'Patro.FileFormat.Valentina.VitFormat'

READ = [f'{F}:ValFileReaderInternal.{n}' for n in ('__init__', 'read', 'read_measurements', 'read_attributes', 'read_calculations', 'read_piece')] \
    + [f'{F}:ValFileReader.{n}' for n in ('__init__', 'pattern', 'measurements')] \
    + [f'{F}:CalculationDispatcher.{n}' for n in ('from_xml', 'from_operation', '_register_mapping', '_init_mapper')]
WRITE = [f'{F}:ValFileWriter.{n}' for n in ('__init__', '_build_xml_tree', '_write')]
KINDS = [f'{V}:PointMixin.to_operation', f'{V}:PointMixin.from_operation', f'{V}:CalculationMixin.call_operation_function',
         f'{V}:CalculationTypeMixin.to_xml', f'{V}:Line.to_operation', f'{V}:Line.from_operation', f'{V}:SimpleInteractiveSpline.to_operation',
         f'{V}:SimpleInteractiveSpline.from_operation', f'{V}:ColorAttribute.from_xml', f'{V}:StrokeStyleAttribute.from_xml',
         f'{V}:StrokeStyleAttribute.to_xml']

class Vit:
    def __init__(self, path, measurements):
        self.path, self.measurements = path, measurements

def round_trip(c, pattern, relative=False, has_vit=True):
    """write the pattern and read it in a process without any identifier"""
    m = c.mod(F)
    obj = c.mod('Patro.Common.Object').ObjectGlobalIdMixin
    counter = c.mod('Patro.Common.AtomicCounter').AtomicCounter
    folder = tempfile.mkdtemp(prefix='dv-val-')
    old_counter, old_vit = obj.__object_counter__, m.VitFile
    asked = []
    def vit_file(path):
        asked.append(os.path.realpath(str(path)))
        return Vit(path, pattern.measurements)
    try:
        os.mkdir(os.path.join(folder, 'sub'))
        vit = os.path.join(folder, 'sub', 'measures.vit')
        with open(vit, 'w') as fh:
            fh.write('<vit/>')
        path = os.path.join(folder, 'a pattern.val')
        c.call(m.ValFileWriter, path, Vit('sub/measures.vit' if relative else vit, pattern.measurements) if has_vit else None, pattern)
        obj.__object_counter__ = counter(-1)
        m.VitFile = vit_file
        r = c.call(m.ValFileReader, path)
        c.ensure('measurement file', asked == ([os.path.realpath(vit)] if has_vit else []))
        # the identifiers read are taken
        top = max([o.id for s in r.pattern.scopes for o in s.sketch.operations], default=-1)
        c.ensure('identifiers stay unique', obj.__object_counter__.increment() > top)
    finally:
        obj.__object_counter__, m.VitFile = old_counter, old_vit
        shutil.rmtree(folder)
    return r

def text(x):
    return None if x is None else str(x)

REFERENCES = ('first_point', 'second_point', 'base_point', 'center', 'point1_line1', 'point2_line1', 'point1_line2', 'point2_line2')
EXPRESSIONS = ('x', 'y', 'length', 'angle', 'radius', 'length1', 'length2', 'angle1', 'angle2')

def same_operation(c, label, a, b, sketch):
    c.ensure(label + ': kind', type(a) is type(b))
    c.ensure(label + ': identifier', a.id == b.id and sketch.get_operation(b.id) is b)
    if hasattr(a, 'name'):
        c.ensure(label + ': name', a.name == b.name and sketch.get_operation(b.name) is b)
        c.ensure_same(label + ': label', c.xy(b.label_offset), c.xy(a.label_offset))
    for n in REFERENCES:
        if hasattr(a, n):
            c.ensure(f'{label}: {n}', getattr(a, n).id == getattr(b, n).id and sketch.get_operation(getattr(b, n).id) is getattr(b, n))
    for n in EXPRESSIONS:
        if hasattr(a, n):
            c.ensure(f'{label}: {n}', text(getattr(a, n)) == text(getattr(b, n)))
    c.ensure(label + ': dependencies', sorted(d.id for d in a.dependencies) == sorted(d.id for d in b.dependencies))

def same_place(c, label, a, b):
    if getattr(a, 'vector', None) is not None:
        c.ensure_same(label + ': place', c.xy(b.vector), c.xy(a.vector))

def same_style(c, label, a, b, style, color, has_style=True):
    """the colour and the style given are the ones read"""
    colors = c.mod('Patro.GraphicStyle').Colors
    if color is None:
        c.ensure(label + ': no colour', b.line_color is None)
    else:
        x, y = colors.ensure_color(color), colors.ensure_color(b.line_color)
        c.ensure(label + ': colour', (x.red, x.green, x.blue) == (y.red, y.green, y.blue))
    if not has_style:
        return
    c.ensure(label + ': style', b.line_style is style)

LENGTHS = ('l', '2.5', 'l*2 + Line_A_B', 'Line_C_D/2', '(l+1)*3')
ANGLES = ('0', '281.664', 'AngleLine_A_C', 'l/2', '-45')

OPERATIONS = {
    'SinglePoint': dict(x=('l', '1.5', 'Line_A_B'), y=('-l', '0', 'x_A/3')),
    'AlongLinePoint': dict(first_point='B', second_point='C', length=LENGTHS + ('CurrentLength/3',)),
    'EndLinePoint': dict(base_point='C', length=LENGTHS, angle=ANGLES),
    'NormalPoint': dict(first_point='D', second_point='A', length=LENGTHS, angle=('0', '90', '180')),
    'LineIntersectPoint': dict(point1_line1='A', point2_line1='B', point1_line2='C', point2_line2='D'),
    'PointOfIntersection': dict(first_point='C', second_point='B'),
    'PointOfContact': dict(first_point='A', second_point='B', center='C', radius=('l', '2.5')),
    'Line': dict(first_point='D', second_point='B'),
    'SimpleInteractiveSpline': dict(first_point='B', second_point='D', length1=('l', 'l*2 + Line_A_B'), length2=('l + 2', '0.25'), angle1=('281.664', 'AngleLine_A_C'), angle2=('12.5', 'l/2')),
}
STYLED = ('AlongLinePoint', 'EndLinePoint', 'NormalPoint', 'Line', 'SimpleInteractiveSpline')
POINTS = ('SinglePoint', 'AlongLinePoint', 'EndLinePoint', 'NormalPoint', 'LineIntersectPoint', 'PointOfIntersection', 'PointOfContact')

def operation(name):
    spec = OPERATIONS[name]
    def check(c):
        f = Fixture(c, 'ABCD')
        for p, q in ('AB', 'BC', 'CD', 'DA', 'AC'):
            f.apart(p, q)
        kw = {k: c.choice(k, *v) if isinstance(v, tuple) else v for k, v in spec.items()}
        style = color = None
        if name in STYLED:
            enum = c.mod('Patro.GraphicStyle').StrokeStyle
            style, color = c.choice('style', (None, None), (enum.SolidLine, 'black'), (enum.DashDotLine, 'darkBlue'), (enum.DotLine, 'deeppink'),
                                    (enum.DashLine, 'goldenrod'), (enum.DashDotDotLine, 'mediumseagreen'), (enum.NoPen, 'lime'))
            kw.update(line_style=style, line_color=color)
        if name in POINTS:
            kw.update(name='P1', label_offset=c.V(3, -2))
        op = c.call(getattr(f.sketch, name), **kw)
        # the places the reader computes are settled by the same operations and parameters (P01): these are long to compute
        evaluated = name not in ('PointOfContact', 'LineIntersectPoint')
        Sketch = c.mod(S).Sketch
        real = Sketch.eval
        if not evaluated:
            Sketch.eval = lambda self: None
        try:
            f.sketch.eval()
            r = round_trip(c, f.pattern, relative=c.bool('relative path'))
        finally:
            Sketch.eval = real
        sketch = same_pattern(c, f.pattern, r)['piece']
        if name in STYLED:
            same_style(c, 'operation', op, list(sketch.operations)[-1], style, color, has_style=name != 'SimpleInteractiveSpline')
    check.__name__ = 'valentina_' + name
    check.__module__ = __name__
    check.__doc__ = f'A {name} written to a Valentina file is read back the same.'
    return contract('P02', READ + WRITE + KINDS + [f'{O}:{name}.__init__'], bounded='formulas and styles from lists; coordinates arbitrary')(check)

def same_pattern(c, pattern, r):
    c.ensure('unit', r.pattern.unit == pattern.unit)
    scopes = list(r.pattern.scopes)
    c.ensure('pieces', [s.name for s in scopes] == [s.name for s in pattern.scopes])
    for s, t in zip(pattern.scopes, scopes):
        old, new = list(s.sketch.operations), list(t.sketch.operations)
        c.ensure('number of operations', len(old) == len(new))
        for i, (a, b) in enumerate(zip(old, new)):
            same_operation(c, type(a).__name__, a, b, t.sketch)
            same_place(c, type(a).__name__, a, b)
    return {s.name: s.sketch for s in scopes}

for _n in OPERATIONS:
    operation(_n)

@contract('P02', READ + WRITE + [f'{V}:PointMixin.to_operation', f'{V}:PointMixin.from_operation'], bounded='files of up to 4 operations')
def labels(c):
    """The place of a label is read back exactly."""
    c.mod('Patro.Pattern')
    measurements = c.mod('Patro.Measurement.ValentinaMeasurement').ValentinaMeasurements()
    pattern = c.mod(P).Pattern(measurements, c.choice('unit', 'cm', 'mm', 'inch'))
    x, y = c.real('mx'), c.real('my')
    op = pattern.add_scope('piece').sketch.SinglePoint('A', '1', '2', c.V(x, y))
    r = round_trip(c, pattern, has_vit=False)
    c.ensure('no measurements', r.measurements is None)
    c.ensure('unit', r.pattern.unit == pattern.unit)
    new, = r.pattern.scope(0).sketch.operations
    c.ensure_same('label', c.xy(new.label_offset), (x, y))
    c.ensure_same('point', c.xy(new.vector), (1, 2))
    c.ensure('point', new.name == 'A' and new.id == op.id)

@contract('P02', READ + WRITE + KINDS, bounded='files of up to 4 operations')
def pieces(c):
    """Pieces with operations built on each other are read back in order; a piece knows its own operations only."""
    f = Fixture(c, 'AB', 'l')
    f.apart('A', 'B')
    s = f.sketch
    off = c.V(0, 3)
    n = c.choice('operations', 0, 1, 2, 3, 4)
    if n > 0: s.PointOfIntersection('P', 'A', 'B', off)
    if n > 1: s.EndLinePoint('Q', base_point='P', angle='90', length='l', label_offset=off)
    if n > 2: s.Line('P', 'Q')
    if n > 3: s.SinglePoint('R', 'Line_P_Q', 'l', off)
    t = f.pattern.add_scope('second <piece> & é')
    k = c.choice('second', 0, 1, 2)
    if k > 0: t.sketch.SinglePoint('A', '2', 'l', off)
    if k > 1: t.sketch.EndLinePoint('P', base_point='A', angle='0', length='1', label_offset=off)
    for i in f.pattern.scopes:
        i.sketch.eval()
    q = same_pattern(c, f.pattern, round_trip(c, f.pattern))
    order = [o.id for p in q.values() for o in p.operations]
    c.ensure('order kept', order == [o.id for p in f.pattern.scopes for o in p.sketch.operations])
    c.ensure('pieces apart', len(set(map(id, (o for p in q.values() for o in p.operations)))) == len(order))

@contract('P02', READ + WRITE + KINDS, bounded='runs on the untouched code: up to 6 pieces of up to 40 operations, built one after the other or in turns', concrete_only=True)
def large_patterns(c):
    """Patterns of many pieces and operations, whatever the order they are built in."""
    c.mod('Patro.Pattern')
    measurements = c.mod('Patro.Measurement.ValentinaMeasurement').ValentinaMeasurements()
    pattern = c.mod(P).Pattern(measurements, 'cm')
    NAMES = ('piece', ' sleeve ', 'piece', 'a  b', 'Manche d\'\u00e9t\u00e9 <1>', '0')
    scopes = [pattern.add_scope(NAMES[(k + c.int('shift', 0, 5)) % 6]) for k in range(c.int('pieces', 1, 6))]
    n = c.choice('operations', 3, 1, 8, 40)
    turns = c.bool('in turns')
    off = c.V(0, 3)
    steps = [(s, k) for k in range(n) for s in scopes] if turns else [(s, k) for s in scopes for k in range(n)]
    for s, k in steps:
        q = s.sketch
        if k < 2:
            q.SinglePoint(f'p{k}', f'{3*k + 1}.25', f'{2 - k}', off)
        elif k % 4 == 2:
            q.EndLinePoint(f'p{k}', base_point=f'p{k - 1}', angle=f'{37*k % 360}', length='2.5', label_offset=off)
        elif k % 4 == 3:
            q.PointOfIntersection(f'p{k}', f'p{k - 1}', 'p0', off)
        elif k % 4 == 0:
            q.SinglePoint(f'p{k}', f'Line_p0_p{k - 1} + {k}', f'{k}', off)
        else:
            q.EndLinePoint(f'p{k}', base_point='p1', angle='AngleLine_p0_p1', length=f'{k}', label_offset=off)
    for s in scopes:
        s.sketch.eval()
    r = round_trip(c, pattern, has_vit=False)
    same_pattern(c, pattern, r)
