"""Dependency graphs (D01).

The nodes are opaque: the answers depend only on the edges and on the order in which the sets of nodes are run through, which
Python leaves open.  The graph functions are run with a set type whose order is given, for all digraphs of a stated size and
all orders; on larger ones they are run as they are."""

import itertools

from dv.contract import contract

F = 'Patro.Common.Graph.DirectedAcyclicGraph'
N = F + ':DirectedAcyclicGraphNode.'
D = F + ':DirectedAcyclicGraph.'

RANK = {}

class RankedSet(set):
    """a set run through in a given order"""
    def _sorted(self):
        return sorted(set.__iter__(self), key=lambda x: RANK.get(getattr(x, '_node_id', x), 0))
    def __iter__(self):
        return iter(self._sorted())
    def pop(self):
        for x in self:
            self.discard(x)
            return x
        return set.pop(self)

def build(m, n, edges, descendant_side=True):
    g = m.DirectedAcyclicGraph()
    nodes = [g.add_node(i) for i in range(n)]
    for a, b in edges:
        g.add_edge(nodes[a], nodes[b])
    return g, nodes

def reach(n, edges):
    r = [[i == j for j in range(n)] for i in range(n)]
    for a, b in edges:
        r[a][b] = True
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    if r[k][j]:
                        r[i][j] = True
    return r

def cyclic(n, edges, r):
    return any(r[b][a] for a, b in edges)

def judge(g, nodes, edges):
    """first broken clause of the graph contract, or None"""
    n = len(nodes)
    r = reach(n, edges)
    ids = lambda xs: [x.node_id for x in xs]
    for i, x in enumerate(nodes):
        if set(ids(x.ancestors)) != {a for a, b in edges if b == i}:
            return f'ancestors of {i}: {ids(x.ancestors)}'
        if set(ids(x.descendants)) != {b for a, b in edges if a == i}:
            return f'descendants of {i}: {ids(x.descendants)}'
        if x.is_root is not (not any(b == i for a, b in edges)) or x.is_leaf is not (not any(a == i for a, b in edges)):
            return f'root or leaf mark of {i}'
    if sorted(ids(g.roots())) != [i for i in range(n) if not any(b == i for a, b in edges)]:
        return f'roots: {ids(g.roots())}'
    if sorted(ids(g.leafs())) != [i for i in range(n) if not any(a == i for a, b in edges)]:
        return f'leaves: {ids(g.leafs())}'
    if sorted(ids(g)) != list(range(n)):
        return f'nodes: {ids(g)}'
    for i, x in enumerate(nodes):
        seen = ids(itertools.islice(x.breadth_first_search(), n + 1))
        if seen[:1] != [i] or sorted(seen) != [j for j in range(n) if r[i][j]]:
            return f'traversal from {i}: {seen}'
        # breadth first: never farther, then nearer
        far, d = {i: 0}, [i]
        for y in d:
            for a, b in edges:
                if a == y and b not in far:
                    far[b] = far[y] + 1
                    d.append(b)
        if any(far[a] > far[b] for a, b in zip(seen, seen[1:])):
            return f'traversal from {i} is not by distance: {seen}'
    try:
        order = ids(g.topological_sort())
    except NameError:
        return None if cyclic(n, edges, r) else 'an acyclic graph is refused'
    if cyclic(n, edges, r):
        return f'a cyclic graph is ordered: {order}'
    if sorted(order) != list(range(n)):
        return f'the order is not made of each node once: {order}'
    place = {x: k for k, x in enumerate(order)}
    for a, b in edges:
        if place[a] >= place[b]:
            return f'the order breaks edge {a} -> {b}: {order}'
    return None

ALL = [D + 'topological_sort', D + 'roots', D + 'leafs', D + 'add_node', D + 'add_edge', D + '__iter__', D + '__getitem__',
       N + 'breadth_first_search', N + 'connect_ancestor', N + 'is_root', N + 'is_leaf', N + 'ancestors', N + 'descendants']

def exhaustive(c, n, loops, ks=None, orders=None):
    m = c.mod(F)
    old = vars(m).get('set')
    m.set = RankedSet
    count = 0
    try:
        pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
        for k in ks or range(1 << len(pairs)):
            edges = [p for b, p in enumerate(pairs) if k >> b & 1]
            for order in orders or itertools.permutations(range(n)):
                RANK.clear()
                RANK.update(enumerate(order))
                g, nodes = build(m, n, edges)
                bad = judge(g, nodes, edges)
                count += 1
                if bad:
                    c.ensure('graph contract', False, f'{n} nodes, edges {edges}, set order {order}: {bad}')
    finally:
        RANK.clear()
        if old is None:
            del m.set
        else:
            m.set = old
    c.ensure('graph contract', count > 0)

@contract('D01', ALL, bounded='every digraph of 1 to 3 nodes, loops included, and every order of the sets')
def graph_small(c):
    """Orders, traversals, roots and leaves of every small graph."""
    exhaustive(c, c.choice('n', 1, 2, 3), True)

@contract('D01', ALL, bounded='every digraph of 4 nodes without loop and every order of the sets', deadline=400)
def graph_four(c):
    if c.symbolic:
        exhaustive(c, 4, False)
    else:
        # one of them, for the search of a failing input
        exhaustive(c, 4, False, [c.int('edges', 0, 4095)], [list(itertools.permutations(range(4)))[c.int('order', 0, 23)]])

@contract('D01', ALL, bounded='runs on the untouched code, up to 9 nodes with histories of changes', concrete_only=True)
def graph_history(c):
    """The same after a history of added and removed edges and nodes, of failed changes and former answers."""
    m = c.mod(F)
    n = c.int('n', 1, 9)
    g = m.DirectedAcyclicGraph()
    nodes = [g.add_node(i, data=('data', i)) for i in range(n)]
    edges = set()
    acyclic = c.bool('acyclic')
    for k in range(c.int('steps', 0, 14)):
        a, b = c.int(f'a{k}', 0, n - 1), c.int(f'b{k}', 0, n - 1)
        what = c.choice(f'what{k}', 'add', 'add', 'add', 'connect', 'remove', 'ask', 'duplicate', 'node')
        if what in ('add', 'connect'):
            if acyclic and a >= b:
                continue
            if what == 'add':
                g.add_edge(nodes[a], nodes[b])
            else:
                nodes[b].connect_ancestor(nodes[a])
            edges.add((a, b))
        elif what == 'remove':
            if (a, b) in edges:
                nodes[b].disconnect_ancestor(nodes[a])
                edges.discard((a, b))
            else:
                c.ensure_raises('removing an edge that is not there', (KeyError,), nodes[b].disconnect_ancestor, nodes[a])
        elif what == 'ask':
            try:
                g.topological_sort()
            except NameError:
                pass
            list(itertools.islice(nodes[a].breadth_first_search(), c.int(f'part{k}', 0, 3)))
        elif what == 'duplicate':
            c.ensure_raises('a second node of one name', (NameError,), g.add_node, a)
        elif what == 'node':
            nodes.append(g.add_node(n, data=('data', n)))
            n += 1
    c.ensure('nodes', all(g[i] is x and x.node_id == i and x.data == ('data', i) for i, x in enumerate(nodes)))
    bad = judge(g, nodes, sorted(edges))
    c.ensure('graph contract', bad is None, f'{n} nodes, edges {sorted(edges)}: {bad}')

@contract('D01', [D + 'topological_sort', N + 'breadth_first_search'], bounded='chains and stars of up to 3000 nodes', concrete_only=True)
def graph_large(c):
    """Long chains and wide graphs are ordered as small ones are."""
    m = c.mod(F)
    n = c.choice('n', 1500, 40, 200, 3000)
    kind = c.choice('kind', 'chain', 'down', 'star', 'ladder', 'cycle', 'sink', 'layers', 'tail')
    edges = dict(chain=[(i, i + 1) for i in range(n - 1)], down=[(i + 1, i) for i in range(n - 1)], star=[(0, i) for i in range(1, n)],
                 sink=[(i, n - 1) for i in range(n - 1)],
                 # layers of at most 40 nodes, each node after all the ones of the former layer
                 layers=[(i, j) for i in range(min(n, 400)) for j in range((i//40 + 1)*40, min(n, (i//40 + 2)*40))],
                 tail=[(i, i + 1) for i in range(n - 1)] + [(n - 1, n - 2)],
                 ladder=[(i, j) for i in range(n) for j in (i + 1, i + 2) if j < n],
                 cycle=[(i, (i + 1) % n) for i in range(n)])[kind]
    g, nodes = build(m, n, edges)
    if kind in ('cycle', 'tail'):
        c.ensure_raises('a long cycle is refused', (NameError,), g.topological_sort)
        return
    order = [x.node_id for x in c.call(g.topological_sort)]
    c.ensure('each node once', sorted(order) == list(range(n)))
    place = {x: k for k, x in enumerate(order)}
    c.ensure('edges', all(place[a] < place[b] for a, b in edges))
    for i, x in enumerate(nodes):
        if i < 50 or i > n - 50:
            c.ensure('descendants', sorted(y.node_id for y in x.descendants) == sorted(b for a, b in edges if a == i))
            c.ensure('ancestors', sorted(y.node_id for y in x.ancestors) == sorted(a for a, b in edges if b == i))
    first = n - 1 if kind == 'down' else 0
    after = {}
    for a, b in edges:
        after.setdefault(a, []).append(b)
    far, todo = {first: 0}, [first]
    for a in todo:
        for b in after.get(a, ()):
            if b not in far:
                far[b] = far[a] + 1
                todo.append(b)
    seen = [x.node_id for x in c.call(lambda: list(nodes[first].breadth_first_search()))]
    c.ensure('traversal', sorted(seen) == sorted(far))
    c.ensure('by distance', all(far[a] <= far[b] for a, b in zip(seen, seen[1:])))
    c.ensure('roots', sorted(x.node_id for x in g.roots()) == sorted(set(range(n)) - {b for a, b in edges}))
    c.ensure('leaves', sorted(x.node_id for x in g.leafs()) == sorted(set(range(n)) - {a for a, b in edges}))

@contract('D01', [N + 'connect_ancestor', N + 'disconnect_ancestor', D + 'add_edge'], bounded='graphs of 6 nodes')
def edge_operations(c):
    """Adding and removing an edge changes exactly this edge, on both sides, whatever the other edges are."""
    m = c.mod(F)
    g = m.DirectedAcyclicGraph()
    a, b = g.add_node('a'), g.add_node('b')
    others = [g.add_node(i) for i in range(4)]
    target = b if c.bool('distinct') else a
    for i, (x, y) in enumerate(((others[0], a), (a, others[1]), (others[2], b), (b, others[3]), (b, a))):
        if c.bool(f'edge{i}'):
            g.add_edge(x, y)
    there = c.bool('already')
    if there:
        g.add_edge(a, target)
    def edges():
        down = {(x.node_id, y.node_id) for x in g for y in x.descendants}
        up = {(y.node_id, x.node_id) for x in g for y in x.ancestors}
        c.ensure('both sides agree', down == up)
        return down
    e = ('a', target.node_id)
    old = edges()
    how = c.choice('how', 'add_edge', 'connect', 'disconnect')
    if how == 'disconnect':
        if e in old:
            c.call(target.disconnect_ancestor, a)
            c.ensure('only this edge goes', edges() == old - {e})
        else:
            c.ensure_raises('no such edge', (KeyError,), target.disconnect_ancestor, a)
            c.ensure('nothing changes', edges() == old)
    else:
        if how == 'add_edge':
            c.call(g.add_edge, a, target)
        else:
            c.call(target.connect_ancestor, a)
        c.ensure('only this edge comes', edges() == old | {e})
