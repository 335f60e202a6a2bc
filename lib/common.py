"""Shared parts of the harnesses: building graphs from symbolic inputs, the reference meaning of windows, and the
comparison of query results with the reference.  Nothing here knows how the code under test works: the reference is a
list of edges with the formula under which each of them is present."""
import sys
from symx import AND, OR, NOT, IMPLIES, IFF, EQ, ITE, COUNT, SymNum, SymNode, SymBool, issym  # noqa: F401

CLASSES = {'IG': 'IntervalGraph', 'IDG': 'IntervalDiGraph', 'PG': 'ImpulseGraph', 'PDG': 'ImpulseDiGraph',
           'SG': 'SnapshotGraph', 'SDG': 'SnapshotDiGraph'}


def dnx():
    return sys.modules['dynetworkx']


def new(kind, **attr):
    return getattr(dnx(), CLASSES[kind])(**attr)


def directed(kind):
    return kind in ('IDG', 'PDG', 'SDG')


def interval_kind(kind):
    return kind in ('IG', 'IDG')


STRINGS = ['a', 'bc', 'b', 'c', 'abc', 'd']
TUPLES = [('x', 1), ('x', 2), ('y',), ('x', 1, 2), 'x', ('y', 'z')]


def make_nodes(env, n, style='sym'):
    if style == 'sym':
        return env.nodes('n', n)
    if style == 'str':
        return STRINGS[:n]
    if style == 'tup':
        return TUPLES[:n]
    return list(range(n))


class Ref(object):
    """The reference: edges (tuples ending in their times), each with the formula under which it is present."""

    def __init__(self, kind):
        self.kind = kind
        self.iv = interval_kind(kind)
        self.dir = directed(kind)
        self.items = []      # [edge, present, data] with data = list of (key, value, formula)
        self.nodes = []      # [node, present]

    # -- times
    def times(self, x):
        return x[2:]

    def inwin(self, x, B, E, inc=(True, False)):
        if self.iv:
            b, e = x[2], x[3]
            if B is None and E is None:
                return True
            if B is None:
                return b < E
            if E is None:
                return OR(e > B, EQ(b, B))
            return OR(AND(b < E, e > B), EQ(b, B))
        t = x[2]
        if B is not None and E is not None:
            pt = EQ(B, E)
        else:
            pt = False
        lo = True if B is None else ((t >= B) if inc[0] else (t > B))
        hi = True if E is None else ((t <= E) if inc[1] else (t < E))
        if pt is False:
            return AND(lo, hi)
        return OR(AND(pt, EQ(t, B)), AND(NOT(pt), lo, hi))

    # -- updates
    def add(self, x, **data):
        inherited = []
        for it in self.items:
            same = AND(it[1], EQ(it[0], x))
            if same is False:
                continue
            inherited += [(k, v, AND(c, same)) for k, v, c in it[2] if k not in data]
            it[1] = AND(it[1], NOT(EQ(it[0], x)))
        self.items.append([x, True, [(k, v, True) for k, v in data.items()] + inherited])
        self.add_node(x[0])
        self.add_node(x[1])

    def add_node(self, n):
        for it in self.nodes:
            if it[0] is n or (not isinstance(n, SymNum) and it[0] == n) or (issym(n) and it[0] == n):
                it[1] = True
                return
        self.nodes.append([n, True])

    def remove_where(self, cond):
        for it in self.items:
            it[1] = AND(it[1], NOT(cond(it[0])))

    def remove_node(self, n, cond):
        """All edges of n for which cond holds go; n itself goes when no edge is left."""
        self.remove_where(lambda x: AND(self.incident(x, n), cond(x)))
        left = OR([AND(p, self.incident(x, n)) for x, p, _ in self.items])
        for it in self.nodes:
            if it[0] == n:
                it[1] = AND(it[1], left)

    def between(self, x, u, v):
        """x is an edge from u to v (either way round when undirected)."""
        if self.dir:
            return x[0] == u and x[1] == v
        return (x[0] == u and x[1] == v) or (x[0] == v and x[1] == u)

    def incident(self, x, n):
        return x[0] == n or x[1] == n

    def matches(self, x, us, vs):
        """x is answered by edges(u=us, v=vs); us/vs are lists or None."""
        if us is None and vs is None:
            return True
        if self.dir:
            return (us is None or any(x[0] == u for u in us)) and (vs is None or any(x[1] == v for v in vs))
        if us is None or vs is None:
            ns = us if us is not None else vs
            return any(self.incident(x, n) for n in ns)
        return any(self.between(x, u, v) for u in us for v in vs)

    def present(self):
        return [(x, p) for x, p, _ in self.items if p is not False]


def require_set(env, got, want, label):
    """got (a list of plain results) is exactly {x : formula} for (x, formula) in want, nothing twice.
    The x of formulas which hold together must differ."""
    got = list(got)
    n = len(got)
    env.require(EQ(COUNT([c for _, c in want]), n), label + ': number of results')
    for r in got:
        env.require(OR([AND(c, EQ(x, r)) for x, c in want]), label + ': a result that does not belong')
    for x, c in want:
        env.require(IMPLIES(c, OR([EQ(x, r) for r in got])), label + ': a result that is missing')


def require_edges(env, ref, got, cond, label, cover=True):
    want = [(x, AND(p, cond(x))) for x, p in ref.present()]
    got = list(got)
    require_set(env, got, want, label)
    if cover:
        if got:
            env.cover(label + ' some')
        if len(got) < len(ref.items):
            env.cover(label + ' not all')


def require_same(env, a, b, label):
    """The lists a and b hold the same elements (as sets of distinct elements)."""
    a, b = list(a), list(b)
    env.require(len(a) == len(b), label + ': number')
    for x in a:
        env.require(OR([EQ(x, y) for y in b]), label + ': only in one')
    for y in b:
        env.require(OR([EQ(x, y) for x in a]), label + ': only in the other')


class Wide(list):
    """Many edges: pairs of nodes, with the order (and coincidences) of all of the begins and ends fixed; the times
    themselves, and what is asked, stay symbolic."""

    def __init__(self, n, seed, nodes=5, loops=True):
        import random
        r = random.Random(n * 1000 + seed)
        self.spans = []
        self.ranks = n + n // 2
        while len(self) < n:
            a, b = r.randrange(nodes), r.randrange(nodes)
            # some nodes and pairs are busier than others
            if r.random() < 0.3:
                a, b = (0, 1) if r.random() < 0.6 else (1, 0)
            p = r.randrange(self.ranks - 1)
            q = r.randrange(p + 1, self.ranks) if r.random() < 0.3 else min(p + r.randrange(1, 4), self.ranks - 1)
            if a == b and not loops or any({a, b} == {c, d} and p == x[0] for (c, d), x in zip(self, self.spans)):
                continue
            self.append((a, b))
            self.spans.append((p, q))

    def points(self, env, sort):
        used = sorted({p for x in self.spans for p in x})
        pts = {}
        for r in used:
            pts[r] = env.num('r%d' % r, sort)
            for s in used:
                if s < r:
                    env.assume(pts[s] < pts[r])
        return pts


def build(env, kind, topo, style='sym', sort='int', degenerate=False, attrs=None, nnodes=None, extra=0, distinct=False,
          order=None, last=None):
    """A graph with one edge per pair of topo, at arbitrary times, added in the order of topo.
    order, last: assume that the edges begin (end) in this order (a list of ranks), to reach larger graphs."""
    G = new(kind)
    k = nnodes if nnodes is not None else max(max(p) for p in topo) + 1
    ns = make_nodes(env, k + extra, style)
    ref = Ref(kind)
    times = times_of(env, kind, topo, sort, degenerate)
    for i, (a, b) in enumerate(topo):
        x = (ns[a], ns[b]) + times(i)
        if order:
            ranked(env, order, i, x, ref)
        if last:
            ranked(env, last, i, x, ref, 3)
        if distinct:
            for y, _ in ref.present():
                if y[0] == x[0] and y[1] == x[1]:
                    env.assume(NOT(EQ(x, y)))
        if not directed(kind) and interval_kind(kind) is not None:
            for y, _ in ref.present():
                if y[0] == x[1] and y[1] == x[0] and a != b:
                    env.assume(NOT(EQ(x[2:], y[2:])))
        at = attrs(i) if attrs else {}
        G.add_edge(*x, **at)
        ref.add(x, **at)
    return G, ns, ref


def ranked(env, order, i, x, ref, c=2):
    for j in range(i):
        y = ref.items[j][0]
        env.assume(EQ(y[c], x[c]) if order[j] == order[i] else y[c] < x[c] if order[j] < order[i] else x[c] < y[c])


def times_of(env, kind, topo, sort='int', degenerate=False):
    """The function which gives the times of the i-th edge of topo."""
    if isinstance(topo, Wide):
        points = topo.points(env, sort)
        return lambda i: tuple(points[r] for r in topo.spans[i][:2 if interval_kind(kind) else 1])
    return lambda i: edge_times(env, kind, i, sort, degenerate)


def edge_times(env, kind, i, sort='int', degenerate=False):
    if interval_kind(kind):
        b = env.num('b%d' % i, sort)
        if degenerate == 'all':
            return (b, b)
        e = env.num('e%d' % i, sort)
        env.assume(b <= e if degenerate else b < e)
        return (b, e)
    return (env.num('t%d' % i, sort),)


def window(env, mode, sort='int', prefix=''):
    """(begin, end) of a query; mode: full, begin, end, point, none, or with infinite bounds."""
    if mode == 'inf':
        return float('-inf'), float('inf')
    if mode == 'lowinf':
        return float('-inf'), env.num(prefix + 'E', sort)
    if mode == 'highinf':
        return env.num(prefix + 'B', sort), float('inf')
    if mode == 'none':
        return None, None
    if mode == 'begin':
        return env.num(prefix + 'B', sort), None
    if mode == 'end':
        return None, env.num(prefix + 'E', sort)
    B = env.num(prefix + 'B', sort)
    if mode == 'point':
        return B, B
    E = env.num(prefix + 'E', sort)
    env.assume(B <= E)
    return B, E


def wkw(B, E, inc=None):
    kw = {}
    if B is not None:
        kw['begin'] = B
    if E is not None:
        kw['end'] = E
    if inc is not None:
        kw['inclusive'] = inc
    return kw
