"""Loops whose steps do not depend on each other.

A `for` loop over a range is settled for any number of steps by one arbitrary step when no step reads what another one wrote.
`independent` decides this on the source of the function: every name written by the body is written before it is read in the
same step, nothing is written through an attribute or a subscript, and no name outside the body is updated in place."""

import ast
import inspect
import textwrap

class _Names(ast.NodeVisitor):
    """names read and written, in the order of evaluation"""
    def __init__(self):
        self.read_first, self.written, self.bad = set(), set(), None
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            if n.id not in self.written:
                self.read_first.add(n.id)
        else:
            self.written.add(n.id)
    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)
    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
        self.visit(n.target)
    def visit_AugAssign(self, n):
        # in place: the object itself may be shared with another step
        self.bad = self.bad or f'line {n.lineno}: updated in place'
    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for b in n.body + n.orelse:
            self.visit(b)
    def visit_Attribute(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.bad = self.bad or f'line {n.lineno}: writes an attribute'
        self.generic_visit(n)
    def visit_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            self.bad = self.bad or f'line {n.lineno}: writes an item'
        self.generic_visit(n)
    def refuse(self, n):
        self.bad = self.bad or f'line {n.lineno}: {type(n).__name__}'
    visit_If = visit_While = visit_Try = visit_With = visit_Break = visit_Continue = visit_Return = visit_Lambda = refuse
    visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_SetComp = visit_FunctionDef = visit_Delete = refuse
    visit_Global = visit_Nonlocal = visit_NamedExpr = visit_YieldFrom = refuse

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'discard', 'update', 'sort', 'reverse', 'popitem',
            'setdefault', 'enlarge', 'write'}

def independent(fn):
    """None, or the reason why the steps of a loop of the function may depend on each other"""
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except (OSError, SyntaxError, TypeError):
        return 'no source'
    loops = [n for n in ast.walk(tree) if isinstance(n, (ast.For, ast.While))]
    if not loops:
        return 'no loop'
    for l in loops:
        if isinstance(l, ast.While):
            return f'line {l.lineno}: while loop'
        if not (isinstance(l.iter, ast.Call) and isinstance(l.iter.func, ast.Name) and l.iter.func.id == 'range' and len(l.iter.args) == 1):
            return f'line {l.lineno}: not a loop over a range'
        v = _Names()
        v.visit(l.target)
        for b in l.body:
            v.visit(b)
        if v.bad:
            return v.bad
        carried = v.read_first & v.written
        if carried:
            return f'line {l.lineno}: {sorted(carried)} carried from step to step'
        for n in ast.walk(l):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                return f'line {n.lineno}: {n.func.attr}'
    return None


class Rewrite(ast.NodeTransformer):
    """loops of functions, see below"""
    def __init__(self):
        self.depth = 0
        self.count = 0
        self.locals = set()
        self.loops = []
    def visit_FunctionDef(self, n):
        saved = self.depth, self.locals, self.loops
        self.depth += 1
        self.loops = []
        a = n.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for b in n.body:
            names |= _stored(b)
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                names -= set(x.names)
        self.locals = names
        self.generic_visit(n)
        self.depth, self.locals, self.loops = saved
        return n
    def visit_ClassDef(self, n):
        depth, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = depth
        return n
    def visit_Lambda(self, n):
        return n
    def visit_AsyncFunctionDef(self, n):
        return n
    def _statement(self, x):
        r = self.visit(x)
        return r if isinstance(r, list) else [r]
    def _plain(self, n):
        """a comprehension that can be moved into a function"""
        if len(n.generators) != 1 or n.generators[0].is_async or not self.depth:
            return False
        for x in ast.walk(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Name) and \
                    x.id in ('super', '__class__', 'locals'):
                return False
        return True
    def _comp(self, n, name):
        self.generic_visit(n)
        if not self._plain(n):
            return n
        g = n.generators[0]
        it, g.iter = g.iter, ast.Name('_dv_it', ast.Load())
        f = ast.Lambda(ast.arguments([], [ast.arg('_dv_it')], None, [], [], None, []), n)
        call = ast.Call(ast.Attribute(ast.Name('__dv_loops__', ast.Load()), name, ast.Load()), [it, f], [])
        return ast.copy_location(call, n)
    def visit_ListComp(self, n):
        return self._comp(n, 'comp')
    def visit_GeneratorExp(self, n):
        return self._comp(n, 'genexp')
    def visit_Expr(self, n):
        if isinstance(n.value, ast.YieldFrom) and self.depth:
            self.count += 1
            x, y = f'_dv_x{self.count}', f'_dv_y{self.count}'
            code = ast.parse(f'''
{x} = None
if __dv_loops__.is_abstract({x}):
    for {y} in {x}: yield {y}
else:
    yield from {x}
''').body
            code[0].value = self.visit(n.value.value)
            self.locals |= {x, y}
            code[1].body = [z for k in code[1].body for z in self.visit(k)]
            for k in code:
                for z in ast.walk(k):
                    ast.copy_location(z, n)
            return code
        return self.generic_visit(n)
    def visit_While(self, n):
        self.loops.append(None)
        self.generic_visit(n)
        self.loops.pop()
        return n
    def _leave(self, n, loops):
        """the step of a loop is left before its end"""
        code = ast.parse('\n'.join(f'{l}.left()' for l in loops)).body
        for k in code:
            for z in ast.walk(k):
                ast.copy_location(z, n)
        return code + [n]
    def visit_Break(self, n):
        l = self.loops[-1] if self.loops else None
        return self._leave(n, [l]) if l else n
    def visit_Return(self, n):
        self.generic_visit(n)
        loops = [l for l in self.loops if l]
        return self._leave(n, loops) if loops else n
    def visit_For(self, n):
        if not self.depth:
            self.generic_visit(n)
            return n
        self.count += 1
        l = f'_dv_l{self.count}'
        n.target, n.iter = self.visit(n.target), self.visit(n.iter)
        self.loops.append(l)
        n.body = [y for x in n.body for y in self._statement(x)]
        self.loops.pop()
        n.orelse = [y for x in n.orelse for y in self._statement(x)]
        targets = _stored(n.target)
        stored = set().union(*map(_stored, n.body))
        for b in n.body:
            for z in ast.walk(b):
                # lists the body changes
                if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and isinstance(z.func.value, ast.Name) and z.func.attr in MUTATORS:
                    stored.add(z.func.value.id)
        names = sorted(x for x in stored - targets if x in self.locals and not x.startswith('_dv_'))
        targets = sorted(x for x in targets if x in self.locals)
        text = [f'{l} = __dv_loops__.enter(None)', f'if {l}.abstract:', f'    {l}.entry(locals(), {names!r}, {targets!r})']
        text += [f'    {x} = {l}.value({x!r})' for x in names + targets]
        pre = ast.parse('\n'.join(text)).body
        pre[0].value.args = [n.iter]
        n.iter = ast.parse(f'{l}.items', mode='eval').body
        done = ast.parse(f'{l}.done(locals())').body
        n.orelse = done + n.orelse
        for k in [pre[0].targets[0], pre[0].value.func, pre[1], n.iter] + done:
            for z in ast.walk(k):
                ast.copy_location(z, n)
        for z in pre + [pre[0].value]:
            ast.copy_location(z, n)
        return pre + [n]

def _stored(n):
    """names bound by a statement in its own scope"""
    out, todo = set(), [n]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split('.')[0] for y in x.names}
        todo.extend(ast.iter_child_nodes(x))
    return out

def instrument(tree, name):
    r = Rewrite()
    return r.visit(tree)

####################################################################################################
# loops over sequences of any length
#
# The loader rewrites every loop of /repo to
#
#     _dv_l = __dv_loops__.enter(iterable, locals)
#     if _dv_l.abstract:
#         _dv_l.entry(locals()); v = _dv_l.value('v') ...      (only for the names the body writes)
#     for target in _dv_l.items: body
#     else: _dv_l.done(locals()); the original else
#
# For an ordinary iterable this is the loop itself.  For a sequence of arbitrary length (Seq) it is the rule of the invariant:
# the invariant holds at entry; one arbitrary step from any state that meets it leads to a state that meets it (this path ends
# there); what follows the loop starts from any state that meets it.  A body that changes anything but the names and lists the
# invariant speaks of is refused (see frame).

class Unset:
    """a name not yet bound before the loop: no use of it is supported"""
    def _refuse(self, *a, **k):
        from .sym import Unsupported
        raise Unsupported('a name bound by an earlier step only')
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __len__ = __iter__ = _refuse
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __or__ = __and__ = __str__ = __repr__ = __format__ = _refuse
    __hash__ = None

UNSET = Unset()

def unsupported(why):
    from .sym import Unsupported
    raise Unsupported(why)

def established(c, label, cond):
    """the invariant holds at the entry of the loop; a loop that starts otherwise is another loop"""
    if c.E.prove(cond, 4000)[0] != 'proved':
        unsupported('another loop: ' + label)
    c.ensure(label, cond)

class Seq:
    """A sequence of arbitrary length: at(k) is the element of index k (equal indices give the same element)."""
    def __init__(self, n, make, name='sequence'):
        from .sym import E
        self.n, self.make, self.name = n, make, name
        self.known = []
        E.any_length = True
    def at(self, k):
        for j, e in self.known:
            if j is k or bool(j == k):
                return e
        e = self.make(k)
        self.known.append((k, e))
        if RUNTIME.c is not None:
            RUNTIME.made.append((e, freeze({'item': e}, None)))
        return e
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                unsupported('slice with a step')
            a, b = self._bound(i.start, 0), self._bound(i.stop, self.n)
            m = b - a
            if not m > 0:
                m = 0
            return Seq(m, lambda k: self.at(k + a), self.name)
        if i < 0:
            i = i + self.n
        if i < 0 or not i < self.n:
            raise IndexError('list index out of range')
        return self.at(i)
    def _bound(self, i, default):
        if i is None:
            return default
        if i < 0:
            i = i + self.n
            return i if i > 0 else 0
        return i if i < self.n else self.n
    def __len__(self):
        unsupported('length of a sequence of any length')
    def __iter__(self):
        unsupported('enumeration of a sequence of any length')
    __contains__ = index = count = lambda self, *a: unsupported('search in a sequence of any length')
    def __bool__(self):
        return bool(self.n > 0)
    def __add__(self, o):
        if isinstance(o, (list, tuple)):
            o = constant(o)
        if not isinstance(o, Seq):
            return NotImplemented
        return Seq(self.n + o.n, lambda k: self.at(k) if k < self.n else o.at(k - self.n), self.name)
    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return constant(o) + self
        return NotImplemented

def constant(items):
    items = list(items)
    def make(k):
        for i, x in enumerate(items):
            if k == i:
                return x
        unsupported('index')
    return Seq(len(items), make)

class Iter:
    """An iterator over a Seq, at any position."""
    def __init__(self, seq, pos=0):
        self.seq, self.pos, self.used = seq, pos, 0
    def __iter__(self):
        return self
    def __next__(self):
        self.used += 1
        if self.used > 40:
            unsupported('enumeration of a sequence of any length')
        if self.pos < self.seq.n:
            e = self.seq.at(self.pos)
            self.pos = self.pos + 1
            return e
        raise StopIteration

class Range(Seq):
    def __init__(self, n):
        super().__init__(n, lambda k: k, 'range')

class Array:
    """A numpy vector of arbitrary length."""
    def __init__(self, seq):
        self.seq = seq
    def __getitem__(self, i):
        if isinstance(i, slice):
            return Array(self.seq[i])
        return self.seq[i]
    def _map(self, o, f):
        if isinstance(o, Array):
            if not bool(o.seq.n == self.seq.n):
                raise ValueError('operands could not be broadcast together')
            return Array(Seq(self.seq.n, lambda k: f(self.seq.at(k), o.seq.at(k))))
        if hasattr(o, '__len__') or hasattr(o, '__iter__'):
            unsupported('array of any length with another one')
        return Array(Seq(self.seq.n, lambda k: f(self.seq.at(k), o)))
    def __add__(self, o): return self._map(o, lambda a, b: a + b)
    def __radd__(self, o): return self._map(o, lambda a, b: b + a)
    def __sub__(self, o): return self._map(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._map(o, lambda a, b: b - a)
    def __mul__(self, o): return self._map(o, lambda a, b: a*b)
    def __rmul__(self, o): return self._map(o, lambda a, b: b*a)
    def __truediv__(self, o): return self._map(o, lambda a, b: a/b)
    def __pow__(self, o): return self._map(o, lambda a, b: a**b)
    def __ge__(self, o): return self._map(o, lambda a, b: a >= b)
    def __gt__(self, o): return self._map(o, lambda a, b: a > b)
    def __le__(self, o): return self._map(o, lambda a, b: a <= b)
    def __lt__(self, o): return self._map(o, lambda a, b: a < b)
    def __neg__(self): return Array(Seq(self.seq.n, lambda k: -self.seq.at(k)))
    def __len__(self): unsupported('length of an array of any length')
    def __iter__(self): unsupported('enumeration of an array of any length')
    def sum(self): return RUNTIME.total(self.seq)

class Matrix:
    """Rows of points: a numpy array with two columns (or rows when turned)."""
    def __init__(self, seq, turned=False):
        self.seq, self.turned = seq, turned
    def transpose(self):
        return Matrix(self.seq, not self.turned)
    T = property(transpose)
    def __getitem__(self, key):
        if not self.turned:
            if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and isinstance(key[1], int):
                key = (key[1], key[0])
            else:
                unsupported('array index')
        if isinstance(key, int):
            key = (key, slice(None))
        if not (isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], int)):
            unsupported('array index')
        i, s = key
        r = Array(Seq(self.seq.n, lambda k: tuple(self.seq.at(k))[i]))
        return r[s]
    def __len__(self): unsupported('length of an array of any length')
    def __iter__(self):
        if not self.turned:
            unsupported('enumeration of an array of any length')
        return iter([self[0], self[1]])

class OutList(list):
    """A list the loop appends to: the items of one arbitrary step, or (after the loop) unknown."""
    def __init__(self):
        super().__init__()
        self.steps = True
    def _refuse(self, *a, **k):
        unsupported('the list built by a loop is used')
    __len__ = __bool__ = __getitem__ = __contains__ = __iter__ = __add__ = __iadd__ = extend = insert = pop = remove = sort = reverse = _refuse
    __eq__ = __ne__ = index = count = clear = __setitem__ = __delitem__ = copy = _refuse
    __hash__ = None
    def logged(self):
        return [x for x in list.__iter__(self)]

class Plain:
    abstract = False
    def __init__(self, items):
        self.items = items
    def done(self, scope):
        pass
    def left(self):
        pass

class Loop:
    """One abstract loop under way."""
    abstract = True
    def __init__(self, it, runtime):
        self.it, self.runtime = it, runtime
        self.seq = it.seq if isinstance(it, Iter) else it
        self.start = it.pos if isinstance(it, Iter) else 0
        self.values = {}
        self.items = ()
    @property
    def n(self):
        return self.seq.n
    def entry(self, scope, names, targets):
        c = self.runtime.c
        state = {k: scope.get(k, UNSET) for k in names}
        self.number = self.runtime.count
        self.runtime.count += 1
        inv = self.runtime.invariant(self, state)
        self.inv = inv
        if inv == 'unroll':
            self.step = None
            self.values = {**{k: scope.get(k, UNSET) for k in targets}, **state}
            self.items = self.it if isinstance(self.it, Iter) else Iter(self.it)
            return
        inv.entry(self, state)
        self.runtime.log.append(('loop', self))
        self.step = c.choice(f'loop {self.number}', 'step', 'after') == 'step'
        if self.step:
            self.k = c.int(f'step {self.number}', lo=0)
            c.assume(self.k >= self.start, self.k < self.n)
            self.values = inv.state(self, state, self.k)
            self.items = self._one()
            if isinstance(self.it, Iter):
                self.it.pos = self.k + 1
        else:
            stop = self.n
            if not self.n >= self.start:
                stop = self.start
            self.k = stop
            self.values = inv.state(self, state, stop)
            self.items = ()
            if isinstance(self.it, Iter):
                self.it.pos = stop
        self.carried = {k: self.values[k] for k in names}
        for k in targets:
            # the last element, if any
            self.values[k] = UNSET
        self.kept = {k: v for k, v in scope.items() if k not in self.values and not k.startswith('_dv_')}
        self.before = freeze(self.kept, self.it)
    def _one(self):
        yield self.seq.at(self.k)
    def left(self):
        if self.step is not None:
            unsupported('a step that ends the loop')
    def value(self, name):
        return self.values[name]
    def done(self, scope):
        from .contract import Stop
        if self.step is None:
            return
        if not self.step:
            return
        now = freeze({k: scope.get(k, UNSET) for k in self.kept}, self.it)
        if not same_frame(self.before, now):
            unsupported('the body of the loop changes what its invariant does not speak of')
        for e, frame in self.runtime.made:
            if not same_frame(frame, freeze({'item': e}, None)):
                self.runtime.c.ensure('items kept by a step', False)
        self.inv.step(self, self.carried, {k: scope.get(k, UNSET) for k in self.carried})
        raise LoopEnd()

from .contract import Stop

class LoopEnd(Stop):
    """the arbitrary step is verified"""

def freeze(scope, it):
    """what can be reached from the names, as a structure compared leaf by leaf"""
    seen = {}
    def walk(x, depth):
        if isinstance(x, (int, float, str, bool, type(None), Seq, Iter, Array, Matrix, OutList, Unset)) or isinstance(x, type) or callable(x):
            return ('leaf', x)
        if id(x) in seen or depth > 6:
            return ('ref', x)
        seen[id(x)] = x
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, x, [walk(y, depth + 1) for y in x])
        if isinstance(x, dict):
            return ('dict', x, [(k, walk(v, depth + 1)) for k, v in x.items()])
        if isinstance(x, (set, frozenset)):
            return ('set', x, sorted(map(id, x)))
        import numpy
        if isinstance(x, numpy.ndarray):
            return ('array', x, [walk(y, depth + 1) for y in x.reshape(-1)])
        mod = type(x).__module__.split('.')[0]
        if mod in ('Patro', 'IntervalArithmetic') or mod == 'contracts':
            d = dict(getattr(x, '__dict__', {}))
            for k in type(x).__mro__:
                s = k.__dict__.get('__slots__', ())
                for a in ((s,) if isinstance(s, str) else s):
                    if hasattr(x, a):
                        d[a] = getattr(x, a)
            return ('object', x, [(k, walk(v, depth + 1)) for k, v in sorted(d.items())])
        return ('leaf', x)
    return {k: walk(v, 0) for k, v in scope.items()}

def same_frame(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_frame(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        if isinstance(a, tuple) and len(a) >= 2 and isinstance(a[0], str) and a[0] in ('leaf', 'ref'):
            return a[0] == b[0] and (a[1] is b[1] or type(a[1]) in (int, str, bool) and type(b[1]) is type(a[1]) and a[1] == b[1])
        return len(a) == len(b) and all(same_frame(x, y) for x, y in zip(a, b))
    return a is b or isinstance(a, (str, int)) and a == b

class Independent:
    """no state is carried from step to step; lists may be appended to"""
    def __init__(self, c):
        self.c = c
        self.outs = {}
    def entry(self, loop, state):
        for k, v in state.items():
            if v is UNSET:
                continue
            if type(v) is list and not v:
                continue
            unsupported(f'{k} is carried from step to step')
    def state(self, loop, state, k):
        r = {}
        for n, v in state.items():
            if type(v) is list:
                r[n] = self.outs[n] = OutList()
            else:
                r[n] = UNSET
        return r
    def step(self, loop, before, after):
        for n, v in before.items():
            if isinstance(v, OutList) and after[n] is not v:
                unsupported(f'{n} is replaced by another list')
        self.check(loop, {n: v.logged() for n, v in before.items() if isinstance(v, OutList)})
    def check(self, loop, outs):
        pass

class Built(Independent):
    """a list gets exactly one item a step: item(k) by the specification, under the relation same(got, want)"""
    def __init__(self, c, item, same):
        super().__init__(c)
        self.item, self.same = item, same
    def entry(self, loop, state):
        super().entry(loop, state)
        if sum(type(v) is list for v in state.values()) != 1 or loop.start != 0:
            unsupported('not one list built by the loop')
    def state(self, loop, state, k):
        r = super().state(loop, state, k)
        if not loop.step:
            for n, v in r.items():
                if isinstance(v, OutList):
                    r[n] = Seq(k, self.item, 'list built')
        return r
    def check(self, loop, outs):
        for n, items in outs.items():
            if len(items) != 1:
                unsupported(f'{len(items)} items a step')
            self.same(items[0], self.item(loop.k))

class Previous(Independent):
    """a name holds the element before the current one"""
    def entry(self, loop, state):
        self.names = set()
        for k, v in state.items():
            if v is UNSET:
                continue
            if bool(loop.start > 0) and v is loop.seq.at(loop.start - 1):
                self.names.add(k)
            else:
                unsupported(f'{k} is carried from step to step')
    def state(self, loop, state, k):
        return {n: loop.seq.at(k - 1) if n in self.names else UNSET for n in state}
    def step(self, loop, before, after):
        for n in self.names:
            self.c.ensure('the element before the next one', after[n] is loop.seq.at(loop.k))

class Counter(Independent):
    """one number is carried from step to step; the step is judged by check(loop, before, after)"""
    def __init__(self, c, check, start=0, ready=None):
        super().__init__(c)
        self.judge, self.first, self.ready = check, start, ready
        self.result = None
    def entry(self, loop, state):
        held = {k: v for k, v in state.items() if v is not UNSET}
        if len(held) != 1 or not self.c.is_number(next(iter(held.values()))):
            unsupported('not one number carried from step to step: ' + ' '.join(sorted(held)))
        self.name, v = next(iter(held.items()))
        established(self.c, 'invariant at entry', self.c.eq(v, self.first))
    def state(self, loop, state, k):
        c = self.c
        self.stop = k
        if loop.step and self.ready:
            self.ready(loop)
        self.value = c.int(f'state {loop.number}') if isinstance(self.first, int) else c.real(f'state {loop.number}')
        return {n: self.value if n == self.name else UNSET for n in state}
    def step(self, loop, before, after):
        self.judge(loop, before[self.name], after[self.name])

class Box(Independent):
    """A box is carried from step to step: the smallest box of the boxes of the elements seen so far, whose sides are given by
    sides(k) = (left, right, lower, upper).  The invariant: it encloses every one of them, and each of its sides is that of one."""
    def __init__(self, c, sides, n, make, view):
        super().__init__(c)
        self.sides, self.total, self.make, self.view = sides, n, make, view
        self.box = None
    def entry(self, loop, state):
        c = self.c
        held = {k: v for k, v in state.items() if v is not UNSET}
        if len(held) != 1:
            unsupported('not one box carried from step to step')
        self.name, v = next(iter(held.items()))
        # elements seen before the loop
        self.seen = loop.start + (self.total - loop.n)
        self.empty = v is None
        if self.empty:
            established(c, 'no box at entry', c.eq(self.seen, 0))
        else:
            self.same_kind(v)
            established(c, 'box of one element at entry', c.eq(self.seen, 1))
            established(c, 'box of the first element', c.same(tuple(self.view(v)), tuple(self.sides(0))))
    def same_kind(self, v):
        try:
            self.view(v)
        except Exception:
            unsupported('not a box')
    def carried(self, m, every):
        """a box that meets the invariant for m >= 1 elements"""
        c = self.c
        x0, x1, y0, y1 = c.reals(*[f'box {i}' for i in range(4)])
        c.assume(x0 <= x1, y0 <= y1)
        s = self.sides(every)
        c.assume(x0 <= s[0], s[1] <= x1, y0 <= s[2], s[3] <= y1)
        self.known = (x0, x1, y0, y1)
        # each side is that of an element seen: the step needs no more of it than that the side is the same or the new one
        return self.make(x0, x1, y0, y1)
    def state(self, loop, state, k):
        c = self.c
        m = k + (self.total - loop.n)
        self.known = None
        if not m > 0:
            self.box = state[self.name]
        else:
            self.every = c.int('any element', lo=0)
            c.assume(self.every < m)
            self.box = self.carried(m, self.every)
        self.m = m
        return {n: self.box if n == self.name else UNSET for n in state}
    def step(self, loop, before, after):
        c = self.c
        self.same_kind(after[self.name])
        b, s = self.view(after[self.name]), self.sides(self.m)
        low = (True, False, True, False)
        for i, side in enumerate(('left', 'right', 'lower', 'upper')):
            c.ensure(f'{side} side: the new element enclosed', c.le(b[i], s[i]) if low[i] else c.ge(b[i], s[i]))
            if self.known is not None:
                e = self.sides(self.every)[i]
                c.ensure(f'{side} side: the elements seen enclosed', c.le(b[i], e) if low[i] else c.ge(b[i], e))
                c.ensure(f'{side} side: touched', c.or_(c.eq(b[i], s[i]), c.eq(b[i], self.known[i])))
            else:
                c.ensure(f'{side} side: touched', c.eq(b[i], s[i]))

class Builtin:
    """a builtin that also accepts sequences of any length; a type where a type is expected"""
    def __init__(self, real, f):
        self.real, self.f = real, f
    def __call__(self, *a, **k):
        return self.f(self.real, *a, **k)
    def __instancecheck__(self, x):
        return isinstance(x, self.real) or isinstance(x, Seq) and self.real in (list, tuple)
    def __subclasscheck__(self, x):
        return issubclass(x, self.real)
    def __mro_entries__(self, bases):
        return (self.real,)
    def __getattr__(self, n):
        return getattr(self.real, n)
    def __eq__(self, o):
        return o is self or o is self.real
    def __hash__(self):
        return hash(self.real)

def _any(x):
    from .sym import SymReal
    return isinstance(x, (Seq, Iter, Array, Matrix))

def _as_seq(x):
    if isinstance(x, Iter):
        s, p = x.seq, x.pos
        m = s.n - p
        x.pos = s.n
        return Seq(m, lambda k: s.at(k + p), s.name)
    if isinstance(x, Array):
        return x.seq
    return x if isinstance(x, Seq) else constant(x)

def _len(real, x):
    if isinstance(x, Seq):
        return x.n
    if isinstance(x, Array):
        return x.seq.n
    f = getattr(type(x), '__len__', None)
    if f is not None and type(x).__module__.split('.')[0] in ('Patro', 'IntervalArithmetic', 'contracts'):
        return f(x)
    return real(x)

def _range(real, *a):
    from .sym import SymReal
    if any(isinstance(x, SymReal) for x in a):
        if len(a) == 1:
            n = a[0]
            if not n > 0:
                return real(0)
            return Range(n)
        if len(a) == 2:
            m = a[1] - a[0]
            if not m > 0:
                return real(0)
            return Seq(m, lambda k: k + a[0], 'range')
        unsupported('range with a step')
    return real(*a)

def _list(real, *a):
    if a and _any(a[0]):
        s = _as_seq(a[0])
        return Seq(s.n, s.at, s.name)
    return real(*a)

def _iter(real, *a):
    if len(a) == 1 and isinstance(a[0], Seq):
        return Iter(a[0])
    return real(*a)

def _zip(real, *a, **k):
    if any(_any(x) for x in a) and not k:
        parts = [_as_seq(x) for x in a]
        n = parts[0].n
        for p in parts[1:]:
            if p.n < n:
                n = p.n
        if not n > 0:
            n = 0
        return Iter(Seq(n, lambda i: tuple(p.at(i) for p in parts)))
    return real(*a, **k)

def _enumerate(real, x, start=0):
    if _any(x):
        s = _as_seq(x)
        return Seq(s.n, lambda k: (k + start, s.at(k)))
    return real(x, start)

def _sum(real, x, start=0):
    if _any(x):
        return RUNTIME.total(_as_seq(x)) + start
    return real(x, start)

def _reversed(real, x):
    if isinstance(x, Seq):
        return Seq(x.n, lambda k: x.at(x.n - 1 - k))
    return real(x)

def _refuse(real, *a, **k):
    if any(_any(x) for x in a):
        unsupported('a sequence of any length given to ' + real.__name__)
    return real(*a, **k)

PATCHES = dict(len=_len, range=_range, list=_list, tuple=_list, iter=_iter, zip=_zip, enumerate=_enumerate, sum=_sum, reversed=_reversed,
               map=_refuse, filter=_refuse, sorted=_refuse, any=_refuse, all=_refuse, set=_refuse, dict=_refuse, min=_refuse, max=_refuse)

class Numpy:
    """numpy that also accepts arrays of any length"""
    def __init__(self, real):
        self.__real = real
    def __getattr__(self, n):
        f = getattr(self.__real, n)
        if n in ('array', 'asarray'):
            def array(x, *a, **k):
                if isinstance(x, Iter):
                    x = _as_seq(x)
                if isinstance(x, Seq):
                    return Matrix(x)
                return f(x, *a, **k)
            return array
        if n == 'sum':
            def total(x, *a, **k):
                if isinstance(x, Array):
                    return x.sum()
                return f(x, *a, **k)
            return total
        if n == 'diff':
            def diff(x, *a, **k):
                if isinstance(x, (Seq, Array)) and not a and not k:
                    q = _as_seq(x)
                    return Array(Seq(q.n - 1, lambda i: q.at(i + 1) - q.at(i)))
                return f(x, *a, **k)
            return diff
        if n == 'all':
            def every(x, *a, **k):
                if isinstance(x, Array) and not a and not k:
                    # either it holds, or it fails at some index
                    c = RUNTIME.c
                    RUNTIME.count += 1
                    if c.choice(f'all {RUNTIME.count}', 'holds', 'fails') == 'holds':
                        return True
                    i = c.int(f'fails at {RUNTIME.count}', lo=0)
                    c.assume(i < x.seq.n)
                    c.assume(c.not_(x.seq.at(i)))
                    return False
                return f(x, *a, **k)
            return every
        if callable(f) and not isinstance(f, type):
            def call(*a, **k):
                if any(_any(x) for x in a):
                    unsupported('numpy.' + n)
                return f(*a, **k)
            return call
        return f

class Runtime:
    """what the rewritten loops call"""
    def __init__(self):
        self.clear()
    def clear(self):
        self.c = None
        self.handler = None
        self.log = []
        self.totals = []
        self.made = []
        self.count = 0
    def enter(self, it):
        if isinstance(it, (Seq, Iter)):
            return Loop(it, self)
        return Plain(it)
    def is_abstract(self, it):
        return isinstance(it, (Seq, Iter))
    def comp(self, it, f):
        """list comprehension with one generator"""
        if isinstance(it, (Seq, Iter)):
            s = _as_seq(it)
            def make(k):
                r = list.copy(f([s.at(k)]))
                if len(r) != 1:
                    unsupported('comprehension with a condition')
                return r[0]
            return Seq(s.n, make)
        return f(it)
    def genexp(self, it, f):
        if isinstance(it, (Seq, Iter)):
            s = _as_seq(it)
            def make(k):
                r = [x for x in f([s.at(k)])]
                if len(r) != 1:
                    unsupported('comprehension with a condition')
                return r[0]
            return Iter(Seq(s.n, make))
        return f(it)
    def invariant(self, loop, state):
        r = self.handler(loop, state) if self.handler else None
        if r is None:
            unsupported('no invariant for this loop')
        return r
    def total(self, seq):
        """the sum of a sequence: a number known by its terms"""
        v = self.c.real(f'sum {len(self.totals)}')
        self.totals.append((v, seq))
        return v

RUNTIME = Runtime()

class unbounded:
    """with unbounded(c, handler): sequences of any length are accepted by the code of /repo"""
    def __init__(self, c, handler=None, **names):
        self.c, self.handler, self.names = c, handler, names
    def __enter__(self):
        import builtins
        import sys
        RUNTIME.clear()
        RUNTIME.c, RUNTIME.handler = self.c, self.handler
        self.saved = []
        for name, m in list(sys.modules.items()):
            if m is None or name.split('.')[0] not in ('Patro', 'IntervalArithmetic'):
                continue
            b = m.__dict__.get('__builtins__', {})
            for k, f in PATCHES.items():
                if k not in m.__dict__:
                    real = b.get(k) if isinstance(b, dict) else None
                    m.__dict__[k] = Builtin(real or getattr(builtins, k), f)
                    self.saved.append((m, k, None))
            for k, f in self.names.items():
                if k in m.__dict__ and name != self.names.get('_not'):
                    self.saved.append((m, k, m.__dict__[k]))
                    m.__dict__[k] = f(m.__dict__[k])
            if 'np' in m.__dict__:
                self.saved.append((m, 'np', m.__dict__['np']))
                m.__dict__['np'] = Numpy(m.__dict__['np'])
        return RUNTIME
    def __exit__(self, *a):
        error = a[1] if a else None
        try:
            self.leave()
        finally:
            if isinstance(error, (TypeError, AttributeError)):
                unsupported(f'{type(error).__name__}: {error}')
        return False
    def leave(self):
        for m, k, v in self.saved:
            if v is None:
                del m.__dict__[k]
            else:
                m.__dict__[k] = v
        RUNTIME.c = RUNTIME.handler = None

def drain(gen):
    """items of a generator of the code; the loops it goes through are in the log"""
    log = RUNTIME.log
    for x in gen:
        log.append(('item', x))

def enumerates(c, gen, length, item, same):
    """the generator gives exactly item(0), ..., item(length - 1)"""
    if isinstance(gen, Iter):
        gen = _as_seq(gen)
    if isinstance(gen, Seq):
        c.ensure('number of items', c.eq(gen.n, length))
        k = c.int('index', lo=0)
        c.assume(k < gen.n)
        same('item', gen.at(k), item(k))
        return
    RUNTIME.log = []
    ended = None
    try:
        drain(gen)
    except LoopEnd as e:
        ended = e
    pos = 0
    open_loop = None
    items = []
    for what, x in RUNTIME.log:
        if what == 'item':
            if open_loop is not None:
                items.append(x)
            else:
                c.ensure('no more items than promised', c.lt(pos, length))
                same('item', x, item(pos))
                pos = pos + 1
        elif open_loop is not None:
            unsupported('a loop of any length inside another one')
        elif x.step:
            open_loop = x
        else:
            pos = pos + (x.k - x.start)
    if ended is not None and open_loop is not None:
        if len(items) != 1:
            unsupported('not one item for each step')
        i = pos + (open_loop.k - open_loop.start)
        c.ensure('no more items than promised', c.lt(i, length))
        same('item of any step', items[0], item(i))
        raise ended
    c.ensure('number of items', c.eq(pos, length))

def by_contract(c):
    """the iterators of IterTools stand by their contract (settled for any length by I01)"""
    def wrap(s, k):
        return s.at(k) if k < s.n else s.at(k - s.n)
    def closed_iterator(real):
        def f(x):
            if not RUNTIME.is_abstract(x):
                return real(x)
            s = _as_seq(x)
            return Iter(Seq(s.n + 1 if s.n > 0 else 0, lambda k: wrap(s, k)))
        return f
    def closed_pairwise(real):
        def f(x):
            if not RUNTIME.is_abstract(x):
                return real(x)
            s = _as_seq(x)
            return Iter(Seq(s.n, lambda k: (s.at(k), wrap(s, k + 1))))
        return f
    def pairwise(real):
        def f(x):
            if not RUNTIME.is_abstract(x):
                return real(x)
            s = _as_seq(x)
            return Iter(Seq(s.n - 1 if s.n > 1 else 0, lambda k: (s.at(k), s.at(k + 1))))
        return f
    return dict(closed_iterator=closed_iterator, closed_pairwise=closed_pairwise, pairwise=pairwise)

def matching_total(c, n, term):
    """the sum of the terms term(0), ..., term(n - 1), if the code computes it"""
    for i, (v, seq) in enumerate(RUNTIME.totals):
        if c.E.prove(c.eq(seq.n, n), 4000)[0] != 'proved':
            continue
        k = c.int('term', lo=0)
        c.assume(k < n)
        if c.E.prove(c.eq(seq.at(k), term(k)), 8000)[0] == 'proved':
            return v
    unsupported('no sum of the expected terms')
