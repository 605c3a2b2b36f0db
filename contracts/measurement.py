"""Measurements (Q01).

The numbers are arbitrary; the expressions and the way they refer to each other are chosen from a list.  For the reference rule
(`reference`) the values referred to stand by the contract of Measurement.evaluated_expression, so the depth of a set is not
bounded: by induction on the (acyclic) references.  sympy and yaml are used through the contracts stated in dv/algebra.py; the
run on CPython uses the libraries themselves."""

import contextlib
import itertools
import os
import shutil
import tempfile

from dv.contract import contract

M = 'Patro.Measurement.Measurement'
VM = 'Patro.Measurement.ValentinaMeasurement'
VIT = 'Patro.FileFormat.Valentina.Measurement'
C = 'Patro.Pattern.Calculator'

EVAL = [f'{M}:Measurement.{n}' for n in ('__init__', 'value', 'evaluated_expression', '__float__')] + \
       [f'{M}:MeasurementSet.{n}' for n in ('add', 'subs', '__getitem__')]

# text of an expression, and its meaning as a function of the values
EXPRESSIONS = (
    ('{a}', lambda c, v: v['a']),
    ('{a} + {b}', lambda c, v: v['a'] + v['b']),
    ('{a}-{b}-{d}', lambda c, v: v['a'] - v['b'] - v['d']),
    ('{a}*{b} + 2', lambda c, v: v['a']*v['b'] + 2),
    ('({a} + 3)*{b}/4', lambda c, v: (v['a'] + 3)*v['b']/4),
    ('-{a}/3', lambda c, v: -v['a']/3),
    ('{b} - 1/3*{a}', lambda c, v: v['b'] - v['a']/3),
    ('{a}**2 - 0.125*{d}', lambda c, v: v['a']*v['a'] - v['d']/8),
    ('{a}/{b}', lambda c, v: v['a']/v['b']),
    ('1.5', lambda c, v: c.q(3, 2)),
    ('2*(3 + 4)', lambda c, v: 14),
    ('0.123456789*{a}', lambda c, v: c.q(123456789, 10**9)*v['a']),
)

NAMES = (('a', 'b', 'd'), ('waist_circ', 'waist', 'hip_circ'), ('x_1', 'x_11', 'X_1'), ('zz', 'z', 'length'))

def same(c, a, b):
    """equal, to the precision of floating point numbers"""
    return c.eq(a, b) if c.symbolic else c.eq(a, b, tol=1e-11)

def sets(c):
    cls = c.choice('class', 'MeasurementSet', 'ValentinaMeasurements')
    return getattr(c.mod(M if cls == 'MeasurementSet' else VM), cls)()

@contract('Q01', EVAL, bounded='expressions, names and orders from lists; values of the measurements arbitrary')
def evaluation(c):
    """The value of an expression of measured values, whatever is defined first."""
    s = sets(c)
    text, meaning = c.choice('expression', *EXPRESSIONS)
    names = dict(zip('abd', c.choice('names', *NAMES)))
    values = {n: c.real(n, pos=True) for n in 'abd'}
    if c.bool('negative'):
        values['a'] = -values['a']
    order = c.choice('order', 'abdr', 'rdba', 'brad', 'drab')
    for n in order:
        if n == 'r':
            r = c.call(s.add, 'r', text.format(**names))
        else:
            c.call(s.add, names[n], values[n])
    first = c.choice('first', 'value', 'float') if 'r' == order[0] else 'another'
    if first == 'another':
        c.ensure('measured', same(c, s[names['a']].value, values['a']))
    got = float(r) if first == 'float' and not c.symbolic else (r.__float__() if first == 'float' else c.call(lambda: r.value))
    c.ensure('value', same(c, got, meaning(c, values)))
    c.ensure('again', same(c, r.value, got))
    for n in 'abd':
        c.ensure(f'{n} kept', same(c, s[names[n]].value, values[n]))
        c.ensure(f'attribute {n}', getattr(s, names[n]) is s[names[n]])

CHAINS = {
    'chain': {'e1': ('e2 + 1', ('e2',)), 'e2': ('2*e3', ('e3',)), 'e3': ('e4 - x', ('e4',)), 'e4': ('x*y', ())},
    'diamond': {'e1': ('e2*e3', ()), 'e2': ('e4 + x', ()), 'e3': ('e4 - x', ()), 'e4': ('y/2', ())},
    'shared': {'e1': ('e2 + e3 + e4', ()), 'e2': ('e3 + e4', ()), 'e3': ('2*e4', ()), 'e4': ('x - y', ())},
    'mixed': {'e1': ('x', ()), 'e2': ('e1 + y', ()), 'e3': ('e1*e2', ()), 'e4': ('e3/3 + e1', ())},
}

def denote(kind, x, y):
    if kind == 'chain':
        e4 = x*y; e3 = e4 - x; e2 = 2*e3; e1 = e2 + 1
    elif kind == 'diamond':
        e4 = y/2; e2 = e4 + x; e3 = e4 - x; e1 = e2*e3
    elif kind == 'shared':
        e4 = x - y; e3 = 2*e4; e2 = e3 + e4; e1 = e2 + e3 + e4
    else:
        e1 = x; e2 = e1 + y; e3 = e1*e2; e4 = e3/3 + e1
    return dict(e1=e1, e2=e2, e3=e3, e4=e4)

@contract('Q01', EVAL, bounded='chains of up to 4 measurements from a list; values arbitrary')
def chains(c):
    """Expressions that refer to expressions, in every order of definition and of evaluation."""
    s = sets(c)
    kind = c.choice('kind', *CHAINS)
    x, y = c.real('x'), c.real('y')
    order = c.choice('order', *itertools.permutations(('e1', 'e2', 'e3', 'e4')))
    measured_first = c.bool('measured first')
    # names: an order of the names which is not the one of the references
    rename = c.choice('names', {}, dict(e1='waist', e2='waist_circ', e3='a', e4='zeta_1', x='hip', y='c'),
                      dict(e1='a', e2='ab', e3='abc', e4='abcd', x='abcde', y='abcdef'))
    n = lambda k: rename.get(k, k)
    import re
    def t(text):
        return re.sub(r'[a-z]\w*', lambda m: n(m.group()), text)
    if measured_first:
        s.add(n('x'), x)
        s.add(n('y'), y)
    for k in order:
        c.call(s.add, n(k), t(CHAINS[kind][k][0]))
    if not measured_first:
        s.add(n('x'), x)
        s.add(n('y'), y)
    want = denote(kind, x, y)
    for k in c.choice('evaluated', ('e1', 'e2', 'e3', 'e4'), ('e4', 'e2', 'e1', 'e3')):
        c.ensure(k, same(c, s[n(k)].value, want[k]))

@contract('Q01', [f'{M}:MeasurementSet.subs', f'{M}:Measurement.evaluated_expression', f'{M}:Measurement.value'], bounded='expressions from a list; values arbitrary')
def reference(c):
    """One step of the induction: the measurements referred to give their value (their contract), whatever stands behind."""
    m = c.mod(M)
    s = sets(c)
    text, meaning = c.choice('expression', *EXPRESSIONS[:9])
    values = {n: c.real(n, pos=True) for n in 'abd'}
    asked = []
    for n in 'abd':
        # an expression of unknown measurements, the value of which stands by the contract
        x = s.add(n, f'unknown_{n} + 1')
        x._evaluated_expression = values[n]
        x._value = values[n]
    r = s.add('r', text.format(a='a', b='b', d='d'))
    c.ensure('value', same(c, c.call(lambda: r.value), meaning(c, values)))

@contract('Q01', EVAL, bounded='cycles of 1 to 3 measurements')
def cycles(c):
    """A measurement that refers to itself has no value, and the others keep theirs."""
    s = sets(c)
    x = c.real('x')
    s.add('x', x)
    kind = c.choice('kind', 1, 2, 3)
    for i in range(kind):
        s.add(f'e{i}', f'e{(i + 1) % kind} + x')
    s.add('r', '2*x')
    for i in range(kind):
        c.ensure_raises(f'e{i}', (ValueError, RecursionError), lambda i=i: s[f'e{i}'].value)
    c.ensure('another', same(c, s['r'].value, 2*x))
    # the set is as before
    c.ensure_raises('again', (ValueError, RecursionError), lambda: s['e0'].value)

@contract('Q01', EVAL, bounded='one definition added late; values arbitrary')
def later(c):
    """A measurement defined after a failed evaluation is taken into account."""
    s = sets(c)
    x = c.real('x')
    s.add('r', 'q + 1')
    s.add('t', '2*r')
    for n in c.choice('asked', 'rt', 'tr', 't'):
        c.ensure_raises(f'{n} has no value', (KeyError, NameError, ValueError, TypeError, AttributeError), lambda: s[n].value)
    s.add('q', x)
    for n in c.choice('order', 'rt', 'tr'):
        c.ensure(f'value of {n}', same(c, c.call(lambda: s[n].value), dict(r=x + 1, t=2*x + 2)[n]))

@contract('Q01', [f'{M}:Measurement._validate_name', f'{M}:MeasurementSet.add', f'{M}:MeasurementSet.__iter__', f'{M}:MeasurementSet.sorted_iter'])
def names(c):
    """Names hold letters, digits and underscores, and are given once."""
    s = c.mod(M).MeasurementSet()
    x, y = c.real('x'), c.real('y')
    for name, valid in (('a', 'a'), ('a b', 'a_b'), ('A_1', 'A_1'), ('x y z', 'x_y_z'), ('b2', 'b2')):
        m = c.call(s.add, name, x)
        c.ensure(f'name {name}', m.name == valid and s[valid] is m)
    before = list(s)
    for name in ('a', 'a b', 'a_b', 'x_y z'):
        c.ensure_raises(f'again {name}', NameError, lambda: s.add(name, y))
    for name in ('a-b', 'a.b', '@a', 'a+', 'a\tb', 'a(', "a'", 'a,b', 'a\n', '#', '[a]', 'a/b', '$x', 'a:b'):
        c.ensure_raises(f'invalid {name!r}', ValueError, lambda: s.add(name, y))
    c.ensure('same measurements', len(list(s)) == len(before) and all(p is q for p, q in zip(s, before)))
    for m in s:
        c.ensure(f'value {m.name}', same(c, m.value, x))
    c.ensure('sorted', [m.name for m in s.sorted_iter()] == sorted(m.name for m in s))

@contract('Q01', [f'{VM}:ValentinaMeasurement.__init__', f'{VM}:ValentinaMeasurement.replace_custom_prefix',
                  f'{VM}:ValentinaMeasurement.is_custom', f'{VM}:ValentinaMeasurement.valentina_name', f'{VM}:ValentinaMeasurements.add'], bounded='names from a list; values arbitrary')
def valentina(c):
    """A custom measurement is found by both its names, in expressions as well."""
    s = c.mod(VM).ValentinaMeasurements()
    x = c.real('x')
    as_text = c.bool('text')
    n, w = c.choice('names', ('@foo', 'waist'), ('@a', 'a'), ('@length_1', 'length_1'))
    a = c.call(s.add, n, str(x) if as_text else x)
    b = c.call(s.add, w, f'{n}*2')
    d = c.call(s.add, n + 'b', f'{n} + {w} - {n}/2')
    c.ensure('custom', a.is_custom() and d.is_custom() and not b.is_custom())
    c.ensure('found', s[n] is a and s[a.name] is a and s[w] is b and s[n + 'b'] is d and s[d.name] is d)
    c.ensure('names', a.valentina_name == n and b.valentina_name == w and b.name == w)
    c.ensure('distinct', len({a.name, b.name, d.name}) == 3)
    c.ensure('value', same(c, a.value, x))
    c.ensure('twice', same(c, b.value, 2*x))
    c.ensure('sum', same(c, d.value, x + 2*x - x/2))
    for k in (n, w, a.name, d.name):
        c.ensure_raises(f'again {k}', NameError, lambda: s.add(k, x))

@contract('Q01', [f'{M}:MeasurementSet.save_as_yaml', f'{M}:MeasurementSet.load_yaml'], bounded='expressions and texts from lists')
def save_and_load(c):
    """A saved set is loaded with the same names, texts and values."""
    m = c.mod(M)
    s, t = m.MeasurementSet(), m.MeasurementSet()
    x, y = c.real('x', pos=True), c.real('y', pos=True)
    i = c.int('i')
    if c.bool('negative'):
        x = -x
    number = c.choice('number', 'number', 'text')
    f = (lambda v: v) if number == 'number' else str
    s.add('x', f(x), *c.choice('texts', (), ('full name',), ('', 'what it is'), ('été: "a"', '- b # c\nd')))
    s.add('y', f(y))
    s.add('i', f(i))
    k = c.choice('expression', *range(12))
    text, meaning = EXPRESSIONS[k]
    s.add('r', text.format(a='x', b='y', d='i'), 'full', 'description')
    s.add('p', 'r/2 + q')
    s.add('q', 'r + x')
    evaluated = c.bool('evaluated')
    if evaluated:
        for n in 'xyirpq':
            s[n].value
    folder = tempfile.mkdtemp(prefix='dv-yaml-')
    try:
        path = os.path.join(folder, 'm.yaml')
        c.call(s.save_as_yaml, path)
        c.call(t.load_yaml, path)
    finally:
        shutil.rmtree(folder)
    c.ensure('names', sorted(a.name for a in t) == sorted(a.name for a in s))
    for a in s:
        b = t[a.name]
        c.ensure(f'texts of {a.name}', (a.full_name, a.description) == (b.full_name, b.description))
    r = meaning(c, dict(a=x, b=y, d=i))
    for n, v in (('x', x), ('y', y), ('i', i), ('r', r), ('q', r + x), ('p', r/2 + r + x)):
        if n in 'xyi' and not c.symbolic:
            # but for the roundings of a text read by sympy
            c.ensure(f'loaded {n} to the last digit', abs(t[n].value - v) <= 1e-15*abs(v) and abs(s[n].value - v) <= 1e-15*abs(v))
        c.ensure(f'loaded {n}', same(c, t[n].value, v))
        c.ensure(f'kept {n}', same(c, s[n].value, v))

@contract('Q01', EVAL + [f'{M}:MeasurementSet.save_as_yaml', f'{M}:MeasurementSet.load_yaml'],
          bounded='runs on the untouched code: references of up to 60 levels, and up to 150 measurements that one expression refers to', concrete_only=True)
def large_sets(c):
    """Long chains of references, and expressions of many measurements."""
    m = c.mod(M)
    s = sets(c)
    n = c.choice('n', 60, 3, 10, 25, 40)
    w = c.choice('w', 40, 2, 12, 150)
    xs = [c.real(f'x{k}') for k in range(w)]
    step = c.choice('step', 1, -1)
    for k in range(n)[::step]:
        # two references each: the work must not double at each level
        s.add(f'c{k}', f'c{k - 1}/2 + c{max(k - 2, 0)}/4 + 1' if k else 'm0')
    for k in range(w)[::step]:
        s.add(f'm{k}', xs[k])
    s.add('all', ' + '.join(f'{k + 1}*m{k}' for k in range(w)))
    if c.bool('by file') and isinstance(s, m.MeasurementSet):
        folder = tempfile.mkdtemp(prefix='dv-yaml-')
        try:
            path = os.path.join(folder, 'm.yaml')
            s.save_as_yaml(path)
            t = m.MeasurementSet()
            t.load_yaml(path)
        finally:
            shutil.rmtree(folder)
        s = t
    v = [xs[0]]
    for k in range(1, n):
        v.append(v[k - 1]/2 + v[max(k - 2, 0)]/4 + 1)
    ask = list(range(n)) if c.bool('in order') else [n - 1, 0, n//2]
    for k in ask:
        c.ensure(f'chain {k}', c.eq(c.call(lambda: s[f'c{k}'].value), v[k], tol=1e-9))
    c.ensure('sum', c.eq(s['all'].value, sum((k + 1)*x for k, x in enumerate(xs)), tol=1e-8))

VIT_TEXT = """<?xml version='1.0' encoding='UTF-8'?>
<vit>
    <!--Measurements created with Valentina (http://www.valentina-project.org/).-->
    <version>0.3.3</version>
    <read-only>false</read-only>
    <notes/>
    <unit>cm</unit>
    <pm_system>998</pm_system>
    <personal>
        <customer>A B</customer>
        <birth-date>2001-02-03</birth-date>
        <gender>female</gender>
        <email/>
    </personal>
    <body-measurements>
{}
    </body-measurements>
</vit>
"""

@contract('Q01', [f'{VIT}:VitFileInternal.__init__', f'{VIT}:VitFileInternal.read', f'{VIT}:VitFile.measurements'], bounded='one file of 4 measurements in every order')
def vit_files(c):
    """The measurements of a Valentina file have the values written in the file, in whatever order."""
    x, y = c.real('x', pos=True), c.real('y', pos=True)
    lines = {'a': f'<m name="height" value="{x}"/>',
             'b': '<m value="height/2 + @foo" name="waist_circ" full_name="Waist &amp; co"/>',
             'c': f'<m name="@foo" value="{y} - height" description="custom"/>',
             'd': '<m name="@foo_2" value="2*@foo + waist_circ"/>'}
    order = c.choice('order', *itertools.permutations('abcd'))
    folder = tempfile.mkdtemp(prefix='dv-vit-')
    try:
        path = os.path.join(folder, 'm.vit')
        with open(path, 'w', encoding='utf8') as fh:
            fh.write(VIT_TEXT.format('\n'.join(lines[k] for k in order)))
        s = c.call(lambda: c.mod(VIT).VitFile(path).measurements)
    finally:
        shutil.rmtree(folder)
    foo = y - x
    waist = x/2 + foo
    for n, v in (('height', x), ('@foo', foo), ('waist_circ', waist), ('@foo_2', 2*foo + waist)):
        c.ensure(n, same(c, s[n].value, v))
    c.ensure('texts', s['waist_circ'].full_name == 'Waist & co' and s['@foo'].description == 'custom' and s['height'].full_name == '')
    c.ensure('names', sorted({m.valentina_name for m in s}) == ['@foo', '@foo_2', 'height', 'waist_circ'])

@contract('Q01', [f'{C}:Calculator.__init__', f'{C}:Expression.__init__', f'{C}:Expression._compile', f'{C}:Expression.eval', f'{C}:Expression.value'], bounded='expressions and names from lists; values arbitrary')
def pattern_expressions(c):
    """Expressions of a pattern have the value of the measurements they refer to."""
    m, vm = c.mod(C), c.mod(VM)
    s = vm.ValentinaMeasurements()
    names = dict(zip('abd', c.choice('names', ('waist', '@foo', '@foo_2'), ('a', 'ab', 'abc'), ('@x', '@x1', 'x'), ('waistLine', '@Line', 'Spline'))))
    values = {n: c.real(n, pos=True) for n in 'abd'}
    for n in c.choice('order', 'abd', 'dba'):
        s.add(names[n], values[n])
    calculator = c.call(m.Calculator, s)
    text, meaning = c.choice('expression', *EXPRESSIONS)
    e = c.call(m.Expression, text.format(**names), calculator)
    c.ensure('value', same(c, c.call(lambda: e.value), meaning(c, values)))
    c.ensure('again', same(c, e.value, meaning(c, values)))
    c.ensure('text', e.expression == text.format(**names) == str(e))
    x = c.real('x')
    e = c.call(m.Expression, x, calculator) if not c.symbolic else m.Expression(c.q(5, 2), calculator)
    # a number given as an expression
    c.ensure('number', same(c, e.value, x if not c.symbolic else c.q(5, 2)))
    e = m.Expression('unknown_name + 1', calculator)
    c.ensure('no value', e.value is None)
