"""Iterators (I01)."""

from dv.contract import contract

M = 'Patro.Common.IterTools'
LENGTHS = 'length of the sequence 0 to 8; elements arbitrary'

class Opaque:
    """an element nothing is known about: any use of its value fails"""
    def __init__(self, n): self.n = n
    def refuse(self, *a):
        raise TypeError('the value of an element was used')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __hash__ = __add__ = __radd__ = refuse
    def __repr__(self): return f'e{self.n}'

def sequence(c, c_kind=True):
    n = c.choice('length', *range(9))
    # elements may be any objects, None included
    items = [None if i % 3 == h else Opaque(i) for h in (c.choice('None at', 7, 0, 1, 2),) for i in range(n)]
    kind = c.choice('kind', 'list', 'tuple', 'generator', 'iterator', 'dict') if c_kind else 'list'
    if kind == 'list':
        return items, list(items)
    if kind == 'tuple':
        return items, tuple(items)
    if kind == 'generator':
        return items, (x for x in items)
    if kind == 'dict':
        class Keyed:
            """neither sequence nor iterator"""
            def __iter__(self): return iter(items)
        return items, Keyed()
    return items, iter(items)

def is_same(c, label, got, want):
    c.ensure(label + ': number', len(got) == len(want))
    for g, w in zip(got, want):
        if w is None or isinstance(w, Opaque):
            c.ensure(label + ': item', g is w)
        else:
            g = tuple(g)
            c.ensure(label + ': size', len(g) == len(w))
            c.ensure(label + ': order', all(x is y for x, y in zip(g, w)))

def unchanged(c, s, items):
    if isinstance(s, (list, tuple)):
        c.ensure('sequence kept', len(s) == len(items) and all(x is y for x, y in zip(s, items)))

def declare(name, spec, *args):
    def harness(c):
        items, s = sequence(c)
        r = c.call(lambda: list(getattr(c.mod(M), name)(s, *args)))
        is_same(c, name, r, spec(items))
        unchanged(c, s, items)
        # two iterations do not disturb each other
        if isinstance(s, (list, tuple)):
            f = getattr(c.mod(M), name)
            a, b = iter(f(s, *args)), iter(f(s, *args))
            x, y = [], []
            for i in range(len(items) + 2):
                for it, out in ((a, x), (b, y)):
                    try:
                        out.append(next(it))
                    except StopIteration:
                        pass
            is_same(c, name + ' interleaved', x, spec(items))
            is_same(c, name + ' interleaved', y, spec(items))
    harness.__name__ = f'{name}' + ''.join(f'_{a}' for a in args)
    harness.__doc__ = f'{name} enumerates exactly the promised tuples, in order, each once.'
    harness.__module__ = __name__
    contract('I01', [f'{M}:{name}'], bounded=LENGTHS)(harness)

declare('closed_iterator', lambda s: s + s[:1])
declare('pairwise', lambda s: [(s[i], s[i + 1]) for i in range(len(s) - 1)])
declare('closed_pairwise', lambda s: [(s[i], s[(i + 1) % len(s)]) for i in range(len(s))])
for n in (0, 1, 2, 3, 4, 5, 6, 7, 9):
    declare('multiwise', lambda s, n=n: [tuple(s[i:i + n]) for i in range(len(s) - n + 1)] if n else [], n)
declare('multiwise', lambda s: [(s[i], s[i + 1]) for i in range(len(s) - 1)])

class Same:
    """equal to any other one, and still another one"""
    def __init__(self, n): self.n = n
    def __eq__(self, other): return True
    def __hash__(self): return 0
    def __repr__(self): return f's{self.n}'

@contract('I01', [f'{M}:{n}' for n in ('closed_iterator', 'pairwise', 'closed_pairwise', 'multiwise')],
          bounded='sequences of up to 300 elements, which may be equal or the same one', concrete_only=True)
def long_sequences(c):
    """Elements that are equal or given several times, in long sequences."""
    m = c.mod(M)
    n = c.choice('length', 150, 1, 2, 3, 5, 8, 20, 33, 65, 101, 129, 257, 300)
    kind = c.choice('elements', 'closed', 'equal', 'one object', 'numbers', 'falsy', 'few')
    items = {'closed': [Same(k) for k in range(n - 1)], 'equal': [Same(k) for k in range(n)], 'one object': [Same(0)]*n, 'numbers': list(range(n)),
             'falsy': [[None, 0, '', (), False, 0.][k % 6] for k in range(n)], 'few': [k*k % 3 for k in range(n)]}[kind]
    if kind == 'closed':
        # the last element is the first one
        items = items + (items[:1] or [Same(0)])
    form = c.choice('form', list, tuple, iter)
    q = c.choice('size of the tuples', 3, 1, 2, 7, 12, 40)
    for name, args, want in (
            ('closed_iterator', (), items + items[:1]),
            ('pairwise', (), list(zip(items, items[1:]))),
            ('closed_pairwise', (), [(items[k], items[(k + 1) % n]) for k in range(n)]),
            ('multiwise', (q,), [tuple(items[k:k + q]) for k in range(n - q + 1)])):
        got = c.call(lambda: list(getattr(m, name)(form(items), *args)))
        c.ensure(name + ': number', len(got) == len(want))
        for g, w in zip(got, want):
            c.ensure(name, g is w if name == 'closed_iterator' else len(g) == len(w) and all(x is y for x, y in zip(g, w)))

@contract('I01', [M + ':closed_multiwise_index_iterator'], bounded=LENGTHS)
def closed_multiwise_index_iterator(c):
    """Every index starts one tuple of n consecutive indices, wrapping to the start."""
    N = c.choice('N', *range(9))
    n = c.choice('n', *range(1, 6))
    r = c.call(lambda: [list(x) for x in c.mod(M).closed_multiwise_index_iterator(N, n)])
    c.ensure('indices', r == [[(i + j) % N for j in range(n)] for i in range(N)])
    r = c.call(lambda: [list(x) for x in c.mod(M).closed_multiwise_index_iterator(N)])
    c.ensure('pairs by default', r == [[i, (i + 1) % N] for i in range(N)])

####################################################################################################
# any length

def any_sequence(c, name='s'):
    """a sequence of any length of elements nothing is known about"""
    from dv.loops import Seq
    return Seq(c.int('length', lo=0), lambda k: Opaque(k), name)

def tuples(c):
    def same(label, got, want):
        if isinstance(want, Opaque):
            c.ensure(label, got is want)
            return
        got = tuple(got)
        c.ensure(label + ': size', len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            c.ensure(f'{label} [{i}]', g is w)
    return same

class Listed:
    """the sequence of a run on the untouched code"""
    def __init__(self, items):
        self.items, self.n = items, len(items)
    def at(self, k):
        return self.items[k]

def iterate(c, name, args, length, item, kinds=('sequence', 'iterator'), invariant=None, **names):
    """the items for a sequence of any length: one arbitrary step of each loop"""
    if not c.symbolic:
        items = [Opaque(k) for k in range(c.int('length', lo=0))]
        arg = iter(items) if c.choice('kind', *kinds) == 'iterator' else items
        s = Listed(list(items))
        r = c.call(lambda: list(getattr(c.mod(M), name)(arg, *args)))
        c.ensure('number of items', len(r) == length(s.n))
        for k, x in enumerate(r):
            tuples(c)('item', x, item(s, k))
        return
    from dv import loops
    s = any_sequence(c)
    arg = loops.Iter(s) if c.choice('kind', *kinds) == 'iterator' else s
    m = c.mod(M)
    with loops.unbounded(c, invariant or (lambda loop, state: loops.Independent(c)), **names):
        r = c.call(getattr(m, name), arg, *args)
        loops.enumerates(c, r, length(s.n), lambda k: item(s, k), tuples(c))

def declare_any(name, length, item, args=(), label='', **kw):
    def harness(c):
        iterate(c, name, args, lambda n: length(c, n), item, **kw)
    harness.__name__ = f'{name}{label}_any_length'
    harness.__doc__ = f'{name} enumerates exactly the promised tuples of a sequence of any length (loop invariants).'
    harness.__module__ = __name__
    contract('I01', [f'{M}:{name}'])(harness)

def wrap(s, k):
    return s.at(k) if k < s.n else s.at(k - s.n)

declare_any('closed_iterator', lambda c, n: n + 1 if n > 0 else 0, wrap)
declare_any('closed_pairwise', lambda c, n: n, lambda s, k: (s.at(k), wrap(s, k + 1)))

def pairwise_invariant(c):
    from dv import loops
    def invariant(loop, state):
        if isinstance(loop.it, loops.Iter) and loop.number == 0:
            # its only step enters the loop that goes through the rest
            return 'unroll'
        return loops.Previous(c)
    return invariant

@contract('I01', [M + ':pairwise'])
def pairwise_any_length(c):
    """pairwise enumerates the pairs of consecutive elements of a sequence of any length (loop invariant: the element before)."""
    iterate(c, 'pairwise', (), lambda n: n - 1 if n > 1 else 0, lambda s, k: (s.at(k), s.at(k + 1)), invariant=pairwise_invariant(c))

def abstract_tee(real):
    from dv import loops
    def tee(x, n=2):
        if loops.RUNTIME.is_abstract(x):
            s = loops._as_seq(x)
            return tuple(loops.Iter(s) for i in range(n))
        return real(x, n)
    return tee

for n in range(1, 9):
    declare_any('multiwise', lambda c, N, n=n: N - n + 1 if N >= n else 0, lambda s, k, n=n: tuple(s.at(k + j) for j in range(n)), (n,), f'_{n}',
                tee=abstract_tee)

@contract('I01', [M + ':closed_multiwise_index_iterator'])
def closed_multiwise_index_iterator_any_length(c):
    """Every index starts one tuple of consecutive indices, for any number of indices and any size of the tuples."""
    N, n = c.int('N', lo=0), c.int('n', lo=1)
    if not c.symbolic:
        r = c.call(lambda: [list(x) for x in c.mod(M).closed_multiwise_index_iterator(N, n)])
        c.ensure('indices', r == [[(i + j) % N for j in range(n)] for i in range(N)])
        return
    from dv import loops
    def same(label, got, want):
        if not isinstance(got, loops.Seq):
            c.not_applicable('the tuples are built otherwise')
        c.ensure(label + ': size', c.eq(got.n, n))
        j = c.int('position', lo=0)
        c.assume(j < n)
        c.ensure(label + ': index', c.eq(got.at(j), (want + j) % N))
    with loops.unbounded(c, lambda loop, state: loops.Independent(c)):
        loops.enumerates(c, c.call(c.mod(M).closed_multiwise_index_iterator, N, n), N, lambda k: k, same)
