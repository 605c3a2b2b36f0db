"""Contracts: declarations, symbolic context (proof) and concrete context (run on the untouched code)."""

import importlib
import math
import random
import time
import traceback
from fractions import Fraction

REGISTRY = {}          # contract id -> Contract
STUBS = {}             # target -> Contract usable as a stub

class Contract:
    def __init__(self, cid, props, targets, fn, doc, kind, **kw):
        self.id, self.props, self.targets, self.fn, self.doc, self.kind = cid, props, targets, fn, doc, kind
        self.opts = kw
        self.stub = kw.get('stub')

def contract(props, targets, **kw):
    """A contract written as a harness: inputs, requires (c.assume), call of the real code, ensures (c.ensure)."""
    if isinstance(props, str):
        props = props.split()
    if isinstance(targets, str):
        targets = [targets]
    def deco(fn):
        cid = f'{fn.__module__.split(".")[-1]}.{fn.__name__}'
        REGISTRY[cid] = Contract(cid, props, targets, fn, (fn.__doc__ or '').strip(), 'harness', **kw)
        return fn
    return deco

####################################################################################################

class Reject(BaseException):
    """the input does not meet the precondition"""

class Failure(BaseException):
    """an obligation is false"""
    def __init__(self, label, detail=''):
        self.label, self.detail = label, detail

class Stop(BaseException):
    """end of this path (an expected exception, ...)"""

def resolve(target):
    """module:Qual.name -> (owner, attribute name, raw attribute)"""
    modname, qual = target.split(':')
    owner = importlib.import_module(modname)
    parts = qual.split('.')
    for p in parts[:-1]:
        owner = getattr(owner, p)
    name = parts[-1]
    d = vars(owner)
    if name not in d:
        raise AttributeError(target)
    return owner, name, d[name]

class BaseCtx:

    symbolic = False

    def mod(self, name):
        return importlib.import_module(name)

    def cls(self, dotted):
        m, n = dotted.rsplit('.', 1)
        return getattr(importlib.import_module(m), n)

    def reals(self, *names, **kw):
        return [self.real(n, **kw) for n in names]

    # vectors
    @property
    def V(self):
        return self.cls('Patro.GeometryEngine.Vector.Vector2D')

    def vec(self, name):
        """an arbitrary Vector2D"""
        return self.V(self.real(name + '.x'), self.real(name + '.y'))

    def vecs(self, *names):
        return [self.vec(n) for n in names]

    def xy(self, v):
        """abstract value of a vector"""
        return (v.x, v.y)

    def view(self, obj):
        """observable value of an object as nested tuples of numbers"""
        import numpy
        if obj is None or isinstance(obj, (str, bool)):
            return obj
        if self.is_number(obj):
            return obj
        if isinstance(obj, dict):
            return tuple((k, self.view(obj[k])) for k in sorted(obj, key=str))
        if isinstance(obj, numpy.ndarray):
            return tuple(self.view(x) for x in obj)
        names = {k.__name__ for k in type(obj).__mro__}
        if 'Vector2DBase' in names:
            return (obj.x, obj.y)
        if 'Interval2D' in names:
            return (obj.x.inf, obj.x.sup, obj.y.inf, obj.y.sup)
        if 'Interval' in names:
            return (obj.inf, obj.sup)
        if 'Transformation' in names:
            return tuple(tuple(r) for r in obj.array)
        if isinstance(obj, (list, tuple)) or hasattr(obj, '__iter__'):
            return tuple(self.view(x) for x in obj)
        if 'Primitive' in names and hasattr(obj, 'points'):
            return (type(obj).__name__,) + tuple(self.view(p) for p in obj.points)
        return obj

    def same(self, a, b):
        """equality of abstract values (nested tuples of numbers)"""
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b):
                return False
            return self.and_(*[self.same(x, y) for x, y in zip(a, b)])
        if self.is_number(a) and self.is_number(b):
            return self.eq(a, b)
        if self.is_number(a) or self.is_number(b):
            return False
        return a is b or a == b

    def ensure_same(self, label, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                self.ensure_same(f'{label}[{i}]', x, y)
            return
        self.ensure(label, self.same(a, b))

    def vec_is(self, label, v, x, y):
        self.ensure(label + '.x', self.eq(v.x, x))
        self.ensure(label + '.y', self.eq(v.y, y))

    def single_extrema(self):
        """least and greatest numbers are terms instead of case distinctions"""

    def messages_only(self):
        """texts made of numbers are messages: no case distinction about their sign, they cannot be read back"""

    def not_applicable(self, why):
        """the source has a form this contract is not made for: other contracts decide"""
        if self.symbolic:
            from .sym import Unsupported
            raise Unsupported(why)

    def frame(self, *objs):
        """remember the observable value of objects; returns a checker"""
        snap = [(o, self.view(o)) for o in objs]
        def check(label='frame'):
            for i, (o, old) in enumerate(snap):
                self.ensure_same(f'{label}: argument {i} unchanged', self.view(o), old)
        return check

    def fresh(self, label, result, *objs):
        """changing result in place leaves objs unchanged and conversely (result: vector)"""
        snap = [self.view(o) for o in objs]
        rv = self.view(result)
        result.x = result.x + 1
        result.y = result.y - 3
        for i, (o, old) in enumerate(zip(objs, snap)):
            self.ensure_same(f'{label}: no shared storage with operand {i}', self.view(o), old)
        result.x = rv[0]
        result.y = rv[1]
        self.ensure_same(f'{label}: restored', self.view(result), rv)
        for i, o in enumerate(objs):
            o.x = o.x + 1
            o.y = o.y + 2
        self.ensure_same(f'{label}: no shared storage with operands', self.view(result), rv)
        for o, old in zip(objs, snap):
            o.x = old[0]
            o.y = old[1]

    def ensure_raises(self, label, excs, f, *args, **kw):
        try:
            r = f(*args, **kw)
        except excs:
            self.ensure(label, True)
            return
        self.ensure(label, False)

####################################################################################################

class SymCtx(BaseCtx):

    symbolic = True

    def __init__(self, engine, contract, prove_ms):
        self.E = engine
        self.contract = contract
        self.prove_ms = prove_ms
        self.results = {}        # (label) -> list of [status...]
        self.failures = []
        self.used_stubs = set()
        self.reached = 0
        self.samples = []

    # ---- inputs
    def is_number(self, x):
        from .sym import SymReal, is_num
        return isinstance(x, SymReal) or (is_num(x) and not isinstance(x, bool))

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, **kw):
        from .sym import SymReal
        v = SymReal.var(name)
        self.E.inputs[name] = 'real'
        if pos: self.E.assume(v > 0)
        if nonneg: self.E.assume(v >= 0)
        if nonzero: self.E.assume(v != 0)
        if lo is not None: self.E.assume(v >= lo)
        if hi is not None: self.E.assume(v <= hi)
        return v

    def angle(self, name, lo=None, hi=None):
        if lo is not None and hi is not None:
            self.E.bounded.add(name)
        return self.real(name, lo=lo, hi=hi)

    def int(self, name, lo=None, hi=None, sample=None):
        # sample: where the runs on the untouched code draw from; not assumed
        self.E.int_atoms.add(name)
        from .sym import SymReal
        v = SymReal.var(name)
        self.E.inputs[name] = 'int'
        if lo is not None: self.E.assume(v >= lo)
        if hi is not None: self.E.assume(v <= hi)
        return v

    def choice(self, name, *options):
        k = self.E.choose(len(options))
        self.E.inputs[name] = ('choice', k)
        return options[k]

    def bool(self, name):
        return self.choice(name, False, True)

    # ---- logic
    def assume(self, *conds):
        for b in conds:
            self.E.assume(b)
    requires = assume

    def robust(self, *xs, tol=None, zero=False):
        pass

    def and_(self, *xs):
        from .sym import And
        return And(*xs)
    def or_(self, *xs):
        from .sym import Or
        return Or(*xs)
    def not_(self, x):
        from .sym import Not
        return Not(x)
    def implies(self, a, b):
        from .sym import Implies
        return Implies(a, b)
    def iff(self, a, b):
        from .sym import Iff
        return Iff(a, b)
    def eq(self, a, b, **kw):
        from .sym import lift
        return lift(a) == lift(b)
    def le(self, a, b, **kw):
        from .sym import lift
        return lift(a) <= lift(b)
    def lt(self, a, b, **kw):
        from .sym import lift
        return lift(a) < lift(b)
    def ge(self, a, b, **kw): return self.le(b, a)
    def gt(self, a, b, **kw): return self.lt(b, a)

    def single_extrema(self):
        self.E.extrema = True

    def messages_only(self):
        self.E.message_numerals = True

    # ---- functions
    def sqrt(self, x):
        from . import sym
        return sym.sqrt(x)
    def cosd(self, a):
        from . import sym
        return sym.cos(sym.radians(a))
    def sind(self, a):
        from . import sym
        return sym.sin(sym.radians(a))
    def cos(self, a):
        from . import sym
        return sym.cos(a)
    def sin(self, a):
        from . import sym
        return sym.sin(a)
    def atan2d(self, y, x):
        from . import sym
        return sym.degrees(sym.atan2(y, x))
    def abs(self, x):
        return abs(x)
    def q(self, a, b=1):
        return Fraction(a, b)
    def eq_angle(self, a, b):
        '''same angle in degree'''
        from .sym import lift
        return lift(a) == lift(b)
    @property
    def pi(self):
        from . import sym
        return sym.pi()

    # ---- calls and obligations
    def call(self, f, *args, **kw):
        from .sym import CutPath, Unsupported, PathBudget
        try:
            return f(*args, **kw)
        except Exception as e:
            self._exception(e)

    def _exception(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        msg = str(e)
        if isinstance(e, TypeError) and ('loop of ufunc' in msg or 'ufunc' in msg and 'object' in msg):
            from .sym import Unsupported
            raise Unsupported(msg)
        if isinstance(e, (TypeError, AttributeError)) and ("'Sym" in msg or 'SymReal' in msg or 'SymBool' in msg):
            # an operation of numbers this engine does not model
            from .sym import Unsupported
            raise Unsupported(msg)
        from . import loops
        if loops.RUNTIME.c is not None and isinstance(e, (TypeError, AttributeError)):
            # sequences of any length are no lists
            loops.unsupported(f'{type(e).__name__}: {msg}')
        where = f'{tb[-1].filename.split("/repo/")[-1]}:{tb[-1].name}' if tb else '?'
        self.note = f'{type(e).__name__}: {msg} at {where}'
        self.ensure('no exception', False, detail=self.note)
        raise Stop()

    def ensure(self, label, cond, detail=''):
        st, be, model, dt = self.E.prove(cond, self.prove_ms)
        rec = self.results.setdefault(label, dict(proved=0, failed=0, backends={}, s=0.))
        rec['s'] += dt
        if st == 'proved':
            rec['proved'] += 1
            rec['backends'][be] = rec['backends'].get(be, 0) + 1
        else:
            rec['failed'] += 1
            if len(self.failures) < 12:
                self.failures.append(dict(label=label, status=st, detail=detail, solver=be,
                                          inputs=self._model_inputs(model, False), goal=self._show(cond),
                                          inputs_alt=self._model_inputs(model, True)))
            if len(self.failures) >= 6:
                raise Stop()

    def have(self, label, cond):
        '''intermediate fact: an obligation of its own, then available'''
        n = len(self.failures)
        self.ensure(label, cond)
        if len(self.failures) == n:
            self.E.assume(cond)

    def _show(self, cond):
        from .sym import SymBool
        if isinstance(cond, SymBool):
            try:
                t = str(cond.z())
            except Exception:
                t = '?'
            return t[:600]
        return str(cond)

    def _model_inputs(self, model, angles):
        out = {}
        for n, kind in self.E.inputs.items():
            if isinstance(kind, tuple):
                out[n] = dict(choice=kind[1])
            elif model and n in model:
                out[n] = model[n]
        if model and angles:
            self._angles_from_model(model, out)
        return out

    def _angles_from_model(self, model, out):
        # an input that only occurs inside cos/sin has no useful value in the model: rebuild it
        from . import poly
        E = self.E
        for a, d in E.atom_def.items():
            if d[0] == 'cos' and a in model:
                s = next((b for b, e in E.atom_def.items() if e[0] == 'sin' and e[1] is d[1]), None)
                if s is None or s not in model:
                    continue
                try:
                    r = d[1].nf()
                    items = list(r.n.items())
                    if len(items) != 1 or not poly.is_const(r.d):
                        continue
                    m, coef = items[0]
                    names = [v for v, e in m if v != 'PI']
                    if len(names) != 1 or names[0] not in E.inputs:
                        continue
                    ang = math.atan2(float(Fraction(model[s])), float(Fraction(model[a])))
                    k = float(coef/poly.const_value(r.d))*(math.pi if ('PI', 1) in m else 1)
                    out[names[0]] = str(Fraction(repr(ang/k)))
                except Exception:
                    pass

class SymOver(BaseException):
    pass

####################################################################################################

class ConcCtx(BaseCtx):

    """Runs the contract on the real, untouched code with real Python numbers."""

    TOL = 1e-6

    def __init__(self, contract, values=None, rng=None, profile='lattice'):
        self.contract = contract
        self.values = values or {}
        self.rng = rng or random.Random(0)
        self.profile = profile
        self.inputs = {}
        self.scale = 1.
        self.nchecks = 0
        self.pool = []

    def is_number(self, x):
        import numpy
        return isinstance(x, (int, float, Fraction, numpy.floating, numpy.integer)) and not isinstance(x, bool)

    def _pick(self):
        r = self.rng
        p = self.profile
        if p == 'lattice':
            return float(r.randint(-4, 4))
        if p == 'dyadic':
            return r.randint(-64, 64)/8
        if p == 'binary':
            return float(r.choice((-1, 0, 1, 2)))
        if p == 'mixed' and self.pool and r.random() < .25:
            return r.choice(self.pool)
        if p == 'wide':
            return r.choice((-1, 1))*10**r.uniform(-3, 4)
        if p == 'seeded' and self.pool and r.random() < .3:
            return r.choice(self.pool)
        return r.uniform(-10, 10)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False, seeds=(), sample=None):
        if name in self.inputs:
            return self.inputs[name]
        if sample and name not in self.values:
            return self.real(name, *sample, pos, nonneg, nonzero, seeds)
        v = self.values.get(name)
        if v is None or isinstance(v, dict):
            r = self.rng
            if seeds and r.random() < .3:
                v = float(r.choice(seeds))
            elif lo is not None and hi is not None:
                if r.random() < .25:
                    v = float(r.choice((lo, hi, (lo+hi)/2, lo + (hi-lo)/4)))
                else:
                    v = lo + (hi-lo)*(r.randint(0, 16)/16 if self.profile in ('lattice', 'dyadic', 'binary')
                                      else r.random())
            else:
                v = self._pick()
                if pos or nonneg:
                    v = abs(v)
                if (pos or nonzero) and v == 0:
                    v = 1.
                if lo is not None and v < lo:
                    v = lo + abs(v - lo) if abs(v-lo) < 50 else lo
                if hi is not None and v > hi:
                    v = hi - abs(v - hi) if abs(v-hi) < 50 else hi
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if (pos and v <= 0) or (nonneg and v < 0) or (nonzero and v == 0):
            raise Reject()
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.inputs[name] = v
        self.pool.append(v)
        self.scale = max(self.scale, abs(v))
        return v

    def angle(self, name, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        v = self.values.get(name)
        if v is None:
            r = self.rng
            if r.random() < .5:
                v = 15*r.randint(-24, 24)
            else:
                v = r.uniform(-360, 360)
            if lo is not None and hi is not None and not lo <= v <= hi:
                v = lo + (hi-lo)*r.random()
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, sample=None):
        if name in self.inputs:
            return self.inputs[name]
        v = self.values.get(name)
        if v is None:
            v = self.rng.randint(*sample) if sample else self.rng.randint(-20 if lo is None else lo, (20 if lo is None else lo+40) if hi is None else hi)
        v = int(Fraction(v))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.inputs[name] = v
        return v

    def choice(self, name, *options):
        v = self.values.get(name)
        if isinstance(v, dict):
            k = v['choice']
        else:
            k = self.rng.randrange(len(options))
        if k >= len(options):
            raise Reject()
        self.inputs[name] = dict(choice=k)
        return options[k]

    def bool(self, name):
        return self.choice(name, False, True)

    def assume(self, *conds):
        for b in conds:
            if not b:
                raise Reject()
    requires = assume

    def robust(self, *xs, tol=1e-6, zero=False):
        '''machine numbers only: inputs too close to a limit case are not compared'''
        for x in xs:
            if (zero or x != 0) and abs(x) < tol*self.scale:
                raise Reject()

    def and_(self, *xs): return all(xs)
    def or_(self, *xs): return any(xs)
    def not_(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)

    def _tol(self, a, b, tol, order):
        m = max(abs(a), abs(b), 1.)
        return (tol or self.TOL)*max(m, self.scale**order)
    def eq(self, a, b, tol=None, order=1):
        a, b = float(a), float(b)
        if a == b:
            return True
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a-b) <= self._tol(a, b, tol, order)
    def le(self, a, b, tol=None, order=1):
        a, b = float(a), float(b)
        return a <= b or abs(a-b) <= self._tol(a, b, tol, order)
    lt = le
    def ge(self, a, b, **kw): return self.le(b, a, **kw)
    def gt(self, a, b, **kw): return self.le(b, a, **kw)

    def sqrt(self, x): return math.sqrt(x)
    def cosd(self, a): return math.cos(math.radians(a))
    def sind(self, a): return math.sin(math.radians(a))
    def cos(self, a): return math.cos(a)
    def sin(self, a): return math.sin(a)
    def atan2d(self, y, x): return math.degrees(math.atan2(y, x))
    def eq_angle(self, a, b):
        d = (a - b) % 360
        return min(d, 360 - d) <= 1e-5 and -180.001 <= a <= 180.001
    def abs(self, x): return abs(x)
    def q(self, a, b=1): return a/b
    pi = math.pi

    def call(self, f, *args, **kw):
        try:
            return f(*args, **kw)
        except Exception as e:
            self._exception(e)

    def _exception(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = f'{tb[-1].filename.split("/repo/")[-1]}:{tb[-1].name}:{tb[-1].lineno}' if tb else '?'
        raise Failure('no exception', f'{type(e).__name__}: {e} at {where}')

    def ensure(self, label, cond, detail=''):
        self.nchecks += 1
        if not cond:
            raise Failure(label, detail)

    def have(self, label, cond):
        pass

####################################################################################################
# functional contracts: result == spec(arguments); usable as stubs at call sites

class Sort:
    """how to make an arbitrary argument, its abstract value, and a result from an abstract value"""

class RealSort(Sort):
    name = 'real'
    def __init__(self, **kw): self.kw = kw
    def make(self, c, n): return c.real(n, **self.kw)
    def accepts(self, x):
        from .sym import SymReal, is_num
        return isinstance(x, SymReal) or (is_num(x) and not isinstance(x, bool))
    def build(self, v, args): return v
    mutable = False

class AngleSort(RealSort):
    def make(self, c, n): return c.angle(n)

class AngleResult(RealSort):
    '''degrees in (-180, 180], compared modulo a turn on machine numbers'''
    def same(self, c, a, b): return c.eq_angle(a, b)

class BoolSort(Sort):
    def make(self, c, n): return c.bool(n)
    def accepts(self, x): return isinstance(x, bool)
    def build(self, v, args): return v
    mutable = False

class ObjSort(Sort):
    '''primitive made of points; abstract value: tuple of points'''
    mutable = False
    def __init__(self, cls, n):
        self.path, self.n = cls, n
    def klass(self):
        m, q = self.path.rsplit('.', 1)
        return getattr(importlib.import_module(m), q)
    def make(self, c, n):
        return self.klass()(*[c.vec(f'{n}.{i}') for i in range(self.n)])
    def accepts(self, x): return type(x) is self.klass()

class VecSort(Sort):
    mutable = True
    def __init__(self, cls='Vector2D', same_class_as=None):
        self.cls = cls
        self.same_cls = same_class_as
    def klass(self):
        return getattr(importlib.import_module('Patro.GeometryEngine.Vector'), self.cls)
    def make(self, c, n):
        return self.klass()(c.real(n + '.x'), c.real(n + '.y'))
    def accepts(self, x): return type(x) is self.klass()
    def build(self, v, args):
        k = self.klass()
        return k(v[0], v[1])

REAL = RealSort()
POS = RealSort(pos=True)
ANGLE = AngleSort()
DEGREES = AngleResult()
SEGMENT = ObjSort('Patro.GeometryEngine.Segment.Segment2D', 2)
BOOL = BoolSort()
VEC = VecSort()
NVEC = VecSort('NormalisedVector2D')

def functional(props, target, sorts, returns, requires=None, stub=True, robust=None):
    """Contract  result == spec(views of the arguments), pure, result shares no storage with the arguments."""
    if isinstance(props, str):
        props = props.split()
    def deco(spec):
        cid = f'{spec.__module__.split(".")[-1]}.{spec.__name__}'
        if cid in REGISTRY:
            raise KeyError(cid)
        def harness(c):
            args = [s.make(c, f'a{i}') for i, s in enumerate(sorts)]
            views = [c.view(a) for a in args]
            if requires is not None:
                c.assume(requires(c, *views))
            if robust is not None:
                c.robust(*robust(*views))
            frame = c.frame(*args)
            r = c.call(invoke, target, args)
            want = spec(c, *views)
            if isinstance(returns, BoolSort):
                c.ensure('result', c.iff(r, want))
            else:
                if returns.mutable:
                    c.ensure('result type', type(r) is returns.klass())
                if hasattr(returns, 'same'):
                    c.ensure('result', returns.same(c, r, want))
                else:
                    c.ensure_same('result', c.view(r), want)
            frame()
            if returns.mutable:
                c.fresh('freshness', r, *[a for a, s in zip(args, sorts) if s.mutable])
        harness.__name__ = spec.__name__
        k = Contract(cid, props, [target], harness, (spec.__doc__ or '').strip(), 'functional')
        REGISTRY[cid] = k
        if stub:
            k.stub = dict(sorts=sorts, returns=returns, spec=spec, requires=requires)
            STUBS[target] = k
        return spec
    return deco

def invoke(target, args):
    owner, name, raw = resolve(target)
    if isinstance(raw, property):
        return getattr(args[0], name)
    if isinstance(raw, (staticmethod, classmethod)):
        return getattr(owner, name)(*args)
    if isinstance(owner, type):
        return getattr(args[0], name)(*args[1:])
    return raw(*args)

class StubManager:
    """replaces contracted functions by their contract at call sites"""
    def __init__(self):
        self.ctx = None
        self.disabled = set()
        self.depth = 0

    def install(self):
        for target, k in STUBS.items():
            try:
                owner, name, raw = resolve(target)
            except (AttributeError, ImportError):
                continue
            self._wrap(owner, name, raw, target, k)

    def _wrap(self, owner, name, raw, target, k):
        mgr = self
        st = k.stub
        n = len(st['sorts'])
        if isinstance(raw, property):
            orig = raw.fget
        elif isinstance(raw, staticmethod):
            orig = raw.__func__
        elif isinstance(raw, classmethod):
            return
        else:
            orig = raw
        def wrapper(*args, **kw):
            c = mgr.ctx
            if c is not None and target not in mgr.disabled and not kw and len(args) == n and \
                    all(s.accepts(a) for s, a in zip(st['sorts'], args)):
                views = [c.view(a) for a in args]
                if st['requires'] is not None:
                    saved = mgr.ctx
                    mgr.ctx = None
                    try:
                        c.ensure(f'precondition of {target.split(":")[1]}', st['requires'](c, *views))
                    finally:
                        mgr.ctx = saved
                c.used_stubs.add(target)
                v = st['spec'](c, *views)
                return st['returns'].build(v, args)
            return orig(*args, **kw)
        wrapper.__name__ = getattr(orig, '__name__', name)
        wrapper.__doc__ = getattr(orig, '__doc__', None)
        wrapper.__dv_original__ = orig
        # aliases of the same function in the class body
        for alias, val in list(vars(owner).items()):
            if val is raw:
                if isinstance(raw, property):
                    setattr(owner, alias, property(wrapper, raw.fset, raw.fdel, raw.__doc__))
                elif isinstance(raw, staticmethod):
                    setattr(owner, alias, staticmethod(wrapper))
                else:
                    setattr(owner, alias, wrapper)

STUB_MANAGER = StubManager()
