"""Shared counters and automatically assigned identifiers (K01).

Rely/guarantee contract of the counter: between any two steps of a method, other threads may have taken any numbers, except
while a lock that every writer holds is held.  Every write of the counter has to move it forward from its value at that very
moment, and the number a thread gets has to lie in the range its own writes took: the ranges of all threads are then disjoint."""

import threading
import types

from dv.contract import contract

A = 'Patro.Common.AtomicCounter'
C = A + ':AtomicCounter.'
O = 'Patro.Common.Object'

REAL_LOCKS = (type(threading.Lock()), type(threading.RLock()))

class Lock:
    def __init__(self, monitor, reentrant=False):
        self.monitor, self.depth, self.reentrant = monitor, 0, reentrant
        self.shared = not monitor.running
    def acquire(self, *a, **kw):
        if self.depth and not self.reentrant:
            raise RuntimeError('the thread waits for a lock it holds')
        self.depth += 1
        return True
    def release(self):
        if not self.depth:
            raise RuntimeError('release of a free lock')
        self.depth -= 1
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *a):
        self.release()
        return False
    def locked(self):
        return self.depth > 0

class Monitor:
    """the counter as seen by one thread among any others"""
    def __init__(self, c, initial):
        self.c, self.n, self.running, self.locks, self.guard = c, 0, False, [], None
        self.ranges, self.written_under, self.judge = [], [], False
        m = self.m = c.mod(A)
        fake = types.ModuleType('threading')
        fake.__dict__.update(vars(threading))
        fake.Lock = lambda: self.lock(False)
        fake.RLock = lambda: self.lock(True)
        self.undo = []
        for name, old in list(vars(m).items()):
            if old is threading:
                self.patch(m, name, fake)
            elif old is threading.Lock or old is threading.RLock:
                self.patch(m, name, fake.Lock if old is threading.Lock else fake.RLock)
            elif isinstance(old, REAL_LOCKS):
                self.patch(m, name, self.lock(True))
        cls = m.AtomicCounter
        for name, old in list(vars(cls).items()):
            if isinstance(old, REAL_LOCKS):
                self.patch(cls, name, self.lock(True))
        self.counter = cls(initial)
        self.foreign = any(hasattr(v, '__enter__') and not isinstance(v, Lock)
                           for o in (self.counter, cls, m) for v in vars(o).values() if not isinstance(v, types.ModuleType))
        cells = {k for k, v in vars(self.counter).items() if c.is_number(v) and not isinstance(v, bool)}
        self.cells = cells
        monitor = self
        class Watched(cls):
            def __getattribute__(self, name):
                if name in cells:
                    monitor.interfere(self, name)
                return object.__getattribute__(self, name)
            def __setattr__(self, name, value):
                if name in cells:
                    monitor.write(self, name, value)
                object.__setattr__(self, name, value)
        self.counter.__class__ = Watched
    def patch(self, owner, name, value):
        self.undo.append((owner, name, vars(owner)[name]))
        setattr(owner, name, value)
    def close(self):
        for o, n, v in self.undo:
            setattr(o, n, v)
    def lock(self, reentrant):
        l = Lock(self, reentrant)
        self.locks.append(l)
        return l
    def held(self):
        return {l for l in self.locks if l.shared and l.depth}
    def interfere(self, obj, name):
        if self.running and self.judge and not (self.guard and self.held() & self.guard):
            self.n += 1
            k = self.c.int(f'others{self.n}', lo=0, sample=(0, 9))
            object.__setattr__(obj, name, object.__getattribute__(obj, name) + k)
    def write(self, obj, name, value):
        if not self.running:
            return
        self.interfere(obj, name)
        self.written_under.append(self.held())
        if self.judge:
            v = object.__getattribute__(obj, name)
            self.c.ensure('the counter moves forward from its value at this moment', value > v)
            self.ranges.append((v, value))
    def value(self):
        (cell,) = self.cells
        return object.__getattribute__(self.counter, cell)
    def run(self, f, *args):
        self.running = True
        try:
            return f(*args)
        finally:
            self.running = False
    def learn(self):
        """the locks every writer holds"""
        k = self.value()
        self.run(self.counter.increment)
        self.run(self.counter.set, self.value() + 5)
        self.run(self.counter.increment, 3)
        locks = self.written_under
        self.guard = set.intersection(*locks) if locks else set()
        self.written_under = []
        (cell,) = self.cells
        object.__setattr__(self.counter, cell, k)
        self.judge = True

def watched(c, v):
    m = Monitor(c, v)
    if len(m.cells) != 1 or m.foreign:
        return m, False
    m.learn()
    return m, True

@contract('K01', [C + 'increment', C + 'set'])
def counter_among_threads(c):
    """Whatever other threads do, a number is issued once and the counter never moves backwards."""
    v = c.int('v', sample=(-1000, 1000))
    how = c.choice('how', 'increment', 'increment by', 'set')
    m, known = watched(c, v)
    try:
        if not known:
            # no number is kept in the counter itself, or under an unknown kind of lock: only the sequential contract and the runs with threads apply
            return
        t = m.counter
        if how == 'set':
            x = c.int('x', sample=(-1000, 1000))
            try:
                m.run(t.set, x)
                refused = False
            except ValueError:
                refused = True
            if refused:
                c.ensure('refused only when issued', x <= m.value())
                c.ensure('refused without change', not m.ranges)
            else:
                c.ensure('the number set lies in the range taken', c.or_(*[c.and_(a < x, x <= b) for a, b in m.ranges]) if m.ranges else False)
        else:
            k = 1 if how == 'increment' else c.int('k', lo=1)
            x = m.run(t.increment) if how == 'increment' else m.run(t.increment, k)
            c.ensure('the number lies in the range taken', c.or_(*[c.and_(a < x, x <= b) for a, b in m.ranges]) if m.ranges else False)
        c.ensure('locks are released', not any(l.depth for l in m.locks))
    finally:
        m.close()

@contract('K01', [C + '__init__', C + 'increment', C + 'set', C + '__int__'])
def counter_alone(c):
    """In one thread, increments add exactly their amount; a value is set only forward."""
    m = c.mod(A)
    v, k, x = c.int('v', sample=(-1000, 1000)), c.int('k', lo=1), c.int('x', sample=(-1000, 1000))
    t = c.call(m.AtomicCounter, v)
    now = t.__int__
    c.ensure('initial', c.eq(now(), v))
    c.ensure('default', m.AtomicCounter().__int__() == 0)
    c.ensure('next', c.eq(c.call(t.increment), v + 1))
    c.ensure('value', c.eq(now(), v + 1))
    c.ensure('by an amount', c.eq(c.call(t.increment, k), v + 1 + k))
    c.ensure('value', c.eq(now(), v + 1 + k))
    if x > v + 1 + k:
        c.call(t.set, x)
        c.ensure('set', c.eq(now(), x))
        c.ensure('next after set', c.eq(c.call(t.increment), x + 1))
    else:
        c.ensure_raises('never backwards', (ValueError,), t.set, x)
        c.ensure('kept', c.eq(now(), v + 1 + k))
        c.ensure('usable after a refusal', c.eq(c.call(t.increment), v + 2 + k))
    u = m.AtomicCounter(5)
    t.increment()
    c.ensure('counters are independent', u.increment() == 6)

@contract('K01', [C + 'increment', C + 'set'], bounded='runs on the untouched code, 2 to 6 threads', concrete_only=True, cases=12)
def counter_with_threads(c):
    """Threads taking numbers at the same time get different numbers."""
    import sys
    m = c.mod(A)
    t = m.AtomicCounter(c.int('v', -5, 5))
    first = int(t)
    n, each = c.int('threads', 2, 6), 400
    got, start = [[] for _ in range(n)], threading.Barrier(n)
    def work(out):
        start.wait()
        for _ in range(each):
            out.append(t.increment())
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(x,), daemon=True) for x in got]
        for x in threads: x.start()
        for x in threads: x.join(60)
    finally:
        sys.setswitchinterval(old)
    numbers = [x for g in got for x in g]
    c.ensure('each number once', sorted(numbers) == list(range(first + 1, first + 1 + n*each)))
    c.ensure('each thread sees increasing numbers', all(g == sorted(g) for g in got))

# ------------------------------------------------------------------ identifiers

class Scope:
    """the numbering scope, whose counter stands at an arbitrary value"""
    def __init__(self, c, v):
        self.cls = c.mod(O).ObjectGlobalIdMixin
        counters = [k for k, x in vars(self.cls).items() if isinstance(x, c.cls(A + '.AtomicCounter'))]
        self.name, = counters
        self.old = vars(self.cls)[self.name]
        self.counter = c.cls(A + '.AtomicCounter')(v)
        setattr(self.cls, self.name, self.counter)
    def value(self):
        return vars(self.cls)[self.name].__int__()
    def __enter__(self):
        return self
    def __exit__(self, *a):
        setattr(self.cls, self.name, self.old)

def classes(c):
    base = c.mod(O).ObjectGlobalIdMixin
    class Left(base): pass
    class Right(base):
        def __init__(self, x, id=None):
            super().__init__(id)
    class Below(Left): pass
    return dict(base=base, left=Left, right=lambda id=None: Right(0, id), below=Below)

@contract('K01', [O + ':ObjectGlobalIdMixin.__init__', O + ':ObjectGlobalIdMixin.id', O + ':ObjectGlobalIdMixin.__int__'])
def identifiers(c):
    """Every identifier of the scope is at most its counter; a new object gets a greater one, whatever its class."""
    v = c.int('v', lo=-1, sample=(-1, 1000))
    with Scope(c, v) as scope:
        objs, top = [], v
        kinds = classes(c)
        for i in range(3):
            cls = kinds[c.choice(f'class{i}', 'base', 'left', 'right', 'below')]
            if c.bool(f'given{i}'):
                x = c.int(f'id{i}', sample=(-5, 2000))
                if x > top:
                    o = c.call(cls, id=x)
                    c.ensure('given identifier', c.eq(o.id, x))
                else:
                    c.ensure_raises('identifier issued before', (ValueError,), cls, id=x)
                    c.ensure('nothing issued', c.eq(scope.value(), top))
                    continue
            else:
                o = c.call(cls)
            c.ensure('greater than every identifier before', o.id > top)
            top = o.id
            c.ensure('counter at least the identifier', scope.value() >= top)
            objs.append(o)
        for i, o in enumerate(objs):
            for p in objs[:i]:
                c.ensure('different', c.not_(c.eq(o.id, p.id)))
            c.ensure('as integer', c.eq(o.__int__(), o.id))

class SketchStub:
    """a sketch of which only the graph is used"""
    def __init__(self, c):
        self.calculator = self
        self.dag = c.cls('Patro.Common.Graph.DirectedAcyclicGraph.DirectedAcyclicGraph')()

@contract('K01', ['Patro.Pattern.SketchOperation:SketchOperation.__init__'])
def operation_identifiers(c):
    """Operations of all sketches share one numbering; an identifier issued before is refused and leaves the sketch as it was."""
    Operation = c.cls('Patro.Pattern.SketchOperation.SketchOperation')
    v = c.int('v', lo=-1, sample=(-1, 1000))
    with Scope(c, v) as scope:
        s, t = SketchStub(c), SketchStub(c)
        a = c.call(Operation, s)
        b = c.call(Operation, t if c.bool('other sketch') else s)
        c.ensure('different', c.and_(a.id > v, b.id > a.id))
        x = c.int('id', sample=(-5, 2000))
        n = len(list(t.dag))
        if x > b.id:
            k = c.call(Operation, t, x)
            c.ensure('given identifier', c.eq(k.id, x))
            d = c.call(Operation, s)
            c.ensure('next', d.id > x)
        else:
            c.ensure_raises('identifier issued before', (NameError,), Operation, t, x)
            c.ensure('sketch unchanged', len(list(t.dag)) == n)

@contract('K01', [O + ':ObjectCkeckedIdMixin.__init__', O + ':ObjectCkeckedIdMixin.id'])
def checked_identifiers(c):
    """An object takes a new identifier of its scope, or the one given after the scope has checked it."""
    Mixin = c.mod(O).ObjectCkeckedIdMixin
    log, refuse = [], c.bool("refuse")
    new, given = c.int('new', lo=0), c.int('given', lo=1)
    class Item(Mixin):
        def new_id(self):
            log.append('new')
            return new
        def check_id(self, id):
            log.append(('check', id))
            if refuse and id:
                raise ValueError
    o = c.call(Item)
    c.ensure('new identifier', c.and_(c.eq(o.id, new), c.eq(o.__int__(), new)) if log == ['new'] else False)
    del log[:]
    if refuse:
        c.ensure_raises('refused', (ValueError,), Item, given)
    else:
        o = c.call(Item, given)
        c.ensure('given identifier', c.eq(o.id, given))
    c.ensure('checked', len(log) == 1 and log[0][0] == 'check')
    zero = c.call(Item, 0)
    c.ensure("zero is an identifier", zero.id == 0)
