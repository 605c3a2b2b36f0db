"""Rational functions over named atoms: the ring-normalisation back end.

A polynomial is a dict  monomial -> Fraction,  a monomial is a sorted tuple of (atom, exponent).
A rational function is a pair (num, den) of polynomials, den never the zero polynomial.
Equality of two rational functions is decided by cross multiplication; it is complete for ring identities and is
extended by rewriting rules  atom**2 -> rational function  (square roots, sin**2 -> 1 - cos**2).
"""

from fractions import Fraction

ONE_M = ()

def const(c):
    c = Fraction(c)
    return {ONE_M: c} if c else {}

def atom(name):
    return {((name, 1),): Fraction(1)}

def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r

def neg(p):
    return {m: -c for m, c in p.items()}

def sub(p, q):
    return add(p, neg(q))

def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))

class TooBig(Exception):
    pass

LIMIT = 60000

def mul(p, q):
    if not p or not q:
        return {}
    if len(p)*len(q) > LIMIT*8:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            s = r.get(m, 0) + c1*c2
            if s:
                r[m] = s
            else:
                del r[m]
    if len(r) > LIMIT:
        raise TooBig()
    return r

def is_const(p):
    return not p or (len(p) == 1 and ONE_M in p)

def const_value(p):
    return p.get(ONE_M, Fraction(0)) if p else Fraction(0)

def power(p, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, p)
    return r

def leading(p):
    # graded lexicographic, deterministic
    return max(p, key=lambda m: (sum(e for _, e in m), m))

def mono_div(a, b):
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) - e
        if n < 0:
            return None
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))

def _lexkey(order):
    def key(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in order)
    return key

def exact_div(p, q):
    """p / q when q divides p exactly, else None"""
    if not p:
        return {}
    if is_const(q):
        c = const_value(q)
        return {m: k/c for m, k in p.items()}
    if len(p) > 3000 or len(q) > 200:
        return None
    order = sorted({v for m in p for v, _ in m} | {v for m in q for v, _ in m})
    key = _lexkey(order)
    lq = max(q, key=key)
    cq = q[lq]
    r = dict(p)
    out = {}
    steps = 0
    while r:
        steps += 1
        if steps > 4000:
            return None
        lr = max(r, key=key)
        m = mono_div(lr, lq)
        if m is None:
            return None
        c = r[lr]/cq
        out[m] = c
        r = sub(r, mul({m: c}, q))
    return out

def content_mono(p):
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for v in list(common):
            e = min(common[v], d.get(v, 0))
            if e:
                common[v] = e
            else:
                del common[v]
        if not common:
            break
    return tuple(sorted(common.items()))

def reduce_frac(n, d):
    if not n:
        return {}, const(1)
    if is_const(d):
        c = const_value(d)
        return ({m: k/c for m, k in n.items()}, const(1))
    cn, cd = content_mono(n), content_mono(d)
    g = {}
    dd = dict(cd)
    for v, e in cn:
        if v in dd:
            g[v] = min(e, dd[v])
    if g:
        g = tuple(sorted(g.items()))
        n = {mono_div(m, g): c for m, c in n.items()}
        d = {mono_div(m, g): c for m, c in d.items()}
    lc = d[leading(d)]
    if lc != 1:
        n = {m: c/lc for m, c in n.items()}
        d = {m: c/lc for m, c in d.items()}
    if not is_const(d):
        if len(n) >= len(d):
            q = exact_div(n, d)
            if q is not None:
                return q, const(1)
        elif len(n) > 1 or True:
            q = exact_div(d, n)
            if q is not None and n:
                lq = q[leading(q)]
                return const(1/lq), {m: c/lq for m, c in q.items()}
    else:
        c = const_value(d)
        return ({m: k/c for m, k in n.items()}, const(1))
    return n, d

class Rat:
    __slots__ = ('n', 'd', '_k')
    def __init__(self, n, d=None, reduced=False):
        if d is None:
            d = const(1)
        if not reduced:
            n, d = reduce_frac(n, d)
        self.n, self.d = n, d
        self._k = None
    @staticmethod
    def const(c):
        return Rat(const(c), const(1), True)
    @staticmethod
    def atom(a):
        return Rat(atom(a), const(1), True)
    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.n.items())), tuple(sorted(self.d.items())))
        return self._k
    def __add__(self, o):
        if self.d == o.d:
            return Rat(add(self.n, o.n), self.d)
        return Rat(add(mul(self.n, o.d), mul(o.n, self.d)), mul(self.d, o.d))
    def __neg__(self):
        return Rat(neg(self.n), self.d, True)
    def __sub__(self, o):
        return self + (-o)
    def __mul__(self, o):
        return Rat(mul(self.n, o.n), mul(self.d, o.d))
    def inv(self):
        return Rat(self.d, self.n)
    def __truediv__(self, o):
        return Rat(mul(self.n, o.d), mul(self.d, o.n))
    def is_const(self):
        return is_const(self.n) and is_const(self.d)
    def value(self):
        return const_value(self.n)/const_value(self.d)
    def atoms(self):
        return {v for p in (self.n, self.d) for m in p for v, _ in m}

def degree_in(p, a):
    return max((e for m in p for v, e in m if v == a), default=0)

def rewrite(p, rules):
    """Apply atom**2 -> Rat rules to polynomial p until no atom with a rule has exponent >= 2.
    Returns a Rat."""
    todo = [a for a in {v for m in p for v, _ in m} if a in rules and degree_in(p, a) >= 2]
    if not todo:
        return Rat(p, const(1), True)
    # newest atoms first: their definition only mentions older atoms
    a = max(todo, key=lambda x: rules[x][0])
    rep = rules[a][1]
    out = Rat({}, const(1), True)
    byexp = {}
    for m, c in p.items():
        e = dict(m).get(a, 0)
        k, r = divmod(e, 2)
        mm = tuple((v, x) for v, x in m if v != a)
        if r:
            mm = mono_mul(mm, ((a, 1),))
        byexp.setdefault(k, {})
        byexp[k][mm] = byexp[k].get(mm, 0) + c
    for k, q in byexp.items():
        q = {m: c for m, c in q.items() if c}
        t = Rat(q, const(1), True)
        for _ in range(k):
            t = t*rep
        out = out + t
    n = rewrite(out.n, rules)
    d = rewrite(out.d, rules)
    return n/d

def is_zero(rat, rules):
    """True when the numerator vanishes modulo the rules"""
    if not rat.n:
        return True
    r = rewrite(rat.n, rules)
    if not r.n:
        return True
    return False
