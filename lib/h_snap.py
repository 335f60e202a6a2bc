"""Harnesses for the snapshot graphs (undirected and directed): arbitrary times, given contents."""
import sys
from common import *            # noqa: F401,F403
from symx import PathAbort

BASE = [(0, 1), (1, 2), (2, 0), (3, 1), (0, 4), (4, 2), (5, 1), (3, 3), (5, 6), (6, 0), (2, 6), (7, 1)]


def apart(env, times):
    """Assume that the snapshots are disjoint in time (an impulse may be neither inside nor at the start of another)."""
    for i, (a, b, ai) in enumerate(times):
        for c, d, ci in times[:i]:
            if ai and ci:
                env.assume(NOT(EQ(a, c)))
            elif ai:
                env.assume(OR(a < c, a >= d))
            elif ci:
                env.assume(OR(c < a, c >= b))
            else:
                env.assume(OR(b <= c, d <= a))


def series(env, kind, k, impulses='any', sort='int', how='any', contents=None, chain=False, multi=False):
    """A snapshot graph with k snapshots at arbitrary disjoint times, inserted in arbitrary order of time (chain: in
    order of time, each one starting where the one before ends; a list: in this order of time, with gaps or without;
    multi: every second one is a multigraph with a parallel edge).  Returns it with [(start, end, graph, edges)]."""
    nx = sys.modules['networkx']
    S = new(kind)
    times, out = [], []
    last = None
    for i in range(k):
        imp = {'any': lambda: env.flag('imp%d' % i), 'none': lambda: False, 'all': lambda: True}.get(
            impulses, lambda: impulses[i] == 'i')()
        if chain is True and last is not None:
            s = last
        else:
            s = env.num('s%d' % i, sort)
        if imp:
            e = s
        else:
            e = env.num('e%d' % i, sort)
            env.assume(s < e)
        last = e
        times.append((s, e, imp))
        if isinstance(chain, (list, tuple)):
            for j in range(i):
                x, y = (times[j], times[i]) if chain[j] < chain[i] else (times[i], times[j])
                env.assume(x[1] <= y[0])
                if x[2] or not (x[2] or y[2]):
                    env.assume(x[0] < y[0])
        if chain is not True:
            apart(env, times)
        es = contents[i] if contents else [BASE[i]]
        way = env.choose('way%d' % i, ['insert', 'ebunch', 'graph']) if how == 'any' else how
        if way == 'ebunch':
            if imp:
                S.add_snapshot(es, time=s)
            else:
                S.add_snapshot(es, start=s, end=e)
            g = None
        else:
            if multi and i % 2:
                es = es + es[:1]
                g = (nx.MultiDiGraph if directed(kind) else nx.MultiGraph)(es)
            else:
                g = (nx.DiGraph if directed(kind) else nx.Graph)(es)
            f = S.insert if way == 'insert' else (lambda g, **kw: S.add_snapshot(graph=g, **kw))
            if imp:
                f(g, time=s)
            else:
                f(g, start=s, end=e)
        out.append([s, e, g, es])
    return S, out


def in_order(items):
    """Indexes of the snapshots in order of their start (the path is split over the orders which are possible)."""
    order = []
    for i in range(len(items)):
        at = 0
        while at < len(order) and bool(items[order[at]][0] < items[i][0]):
            at += 1
        order.insert(at, i)
    return order


def inwin(it, B, E):
    """The snapshot is answered for the window from B (included) to E (not included)."""
    s, e = it[0], it[1]
    return AND(True if B is None else OR(s >= B, e > B), True if E is None else s < E)


def span(env, mode, sort='int', prefix=''):
    B, E = window(env, mode, sort, prefix)
    if mode == 'full':
        env.assume(B < E)
    return B, E


def skw(B, E):
    kw = {}
    if B is not None:
        kw['start'] = B
    if E is not None:
        kw['end'] = E
    return kw


def selection(env, items, mode, k):
    """A selection of snapshots: by a list of indexes or by a window.  Returns (keywords, positions in items)."""
    order = in_order(items)
    if mode == 'sbunch':
        ix = [env.choose('ix0', range(k)), env.choose('ix1', range(k))]
        if env.flag('one'):
            ix = ix[:1]
        return {'sbunch': ix}, [order[i] for i in ix]
    if mode == 'sbunch0':
        return {'sbunch': []}, []
    B, E = span(env, mode)
    return skw(B, E), [i for i in order if bool(inwin(items[i], B, E))]


def edges_of(g):
    return set(g.edges()) if g.is_directed() else set(frozenset(p) for p in g.edges())


def edge_bag(g):
    """The edges as a sorted list, parallel ones each."""
    return sorted(tuple(p) if g.is_directed() else tuple(sorted(p)) for p in g.edges())


def edges_as(kind, es):
    return set(es) if directed(kind) else set(frozenset(p) for p in es)


def same_graph(env, kind, g, it, label):
    env.require(it[2] is None or g is it[2], label + ': not the graph which was inserted')
    env.require(g.is_directed() == directed(kind), label + ': directedness')
    env.require(edges_of(g) == edges_as(kind, it[3]), label + ': edges')


# ------------------------------------------------------------------------------------------------ order, retrieval

def ordered(env, kind, k, impulses='any', mode='full', sort='int', how='any', chain=False):
    S, items = series(env, kind, k, impulses, sort, how, chain=chain)
    env.require(len(S) == k, 'number of snapshots')
    order = in_order(items)
    got = list(S)
    env.require(len(got) == k, 'number of snapshots of the iteration')
    for i, g in zip(order, got):
        same_graph(env, kind, g, items[i], 'iteration in order of time')
        env.require(g in S, 'in')
    kw, want = selection(env, items, mode, k)
    got = S.get(**kw)
    env.observe('selected', [(n, sorted(g.edges())) for n, g in enumerate(got)])
    env.require(len(got) == len(want), 'number of selected snapshots')
    for i, g in zip(want, got):
        same_graph(env, kind, g, items[i], 'selected snapshot')
    env.cover('selected' if want else 'none selected')
    if len(want) < k:
        env.cover('not all selected')


def replaced(env, kind, k, impulses='any'):
    """Inserting at the times of a snapshot replaces it and nothing else."""
    nx = sys.modules['networkx']
    S, items = series(env, kind, k, impulses, how='insert')
    j = env.choose('again', range(k))
    g = (nx.DiGraph if directed(kind) else nx.Graph)([(7, 8)])
    s, e = items[j][:2]
    S.insert(g, start=s, end=e)
    items[j] = [s, e, g, [(7, 8)]]
    env.require(len(S) == k, 'number of snapshots')
    for i, h in zip(in_order(items), S):
        same_graph(env, kind, h, items[i], 'after replacing')
    env.require(S.name == '' and str(S) == '', 'name of a graph without a name')
    S.name = 'net'
    env.require(S.name == 'net' and str(S) == 'net' and str(new(kind, name='n')) == 'n', 'name')
    env.cover('replaced')


def refused(env, kind):
    nx = sys.modules['networkx']
    S, items = series(env, kind, 1, 'none', how='insert')
    a, b = env.num('a'), env.num('b')
    env.assume(a > b)
    calls = [lambda: S.insert(nx.Graph(), start=a, end=b),
             lambda: S.add_snapshot([(1, 2)], start=a, end=b),
             lambda: S.insert(nx.Graph(), start=b, end=a, time=b),
             lambda: S.insert(nx.Graph(), start=b),
             lambda: S.insert(nx.Graph(), end=b),
             lambda: S.add_snapshot([(1, 2)], start=b, time=b),
             lambda: S.get(sbunch=[0], start=b),
             lambda: S.get(sbunch=[0], end=b),
             lambda: S.add_edges_from([(1, 2)], sbunch=[0], start=b, end=a),
             lambda: S.insert(nx.Graph()), lambda: S.add_snapshot([(1, 2)]),
             lambda: S.insert(nx.Graph(), time=b, end=a), lambda: S.add_snapshot(graph=nx.Graph(), time=b, end=a),
             lambda: S.add_snapshot(graph=nx.Graph(), start=a, end=b),
             lambda: S.save_to_txt('/nonexistent/x', delimiter=' '),
             lambda: S.save_to_txt('/nonexistent/x', delimiter='\n'),
             lambda: new(kind).save_to_txt('/nonexistent/x')]
    for w in ({'start': b}, {'end': b}, {'start': b, 'end': a}):
        calls += [lambda w=w: S.degree(sbunch=[0], **w), lambda w=w: S.size(sbunch=[0], **w),
                  lambda w=w: S.order(sbunch=[0], **w), lambda w=w: S.number_of_nodes(sbunch=[0], **w),
                  lambda w=w: S.has_node(1, sbunch=[0], **w), lambda w=w: S.is_multigraph(sbunch=[0], **w),
                  lambda w=w: S.is_directed(sbunch=[0], **w), lambda w=w: S.to_directed(sbunch=[0], **w),
                  lambda w=w: S.to_undirected(sbunch=[0], **w), lambda w=w: S.subgraph([1], sbunch=[0], **w),
                  lambda w=w: S.add_nodes_from([1], sbunch=[0], **w), lambda w=w: S.get(sbunch=[0], **w),
                  lambda w=w: S.add_edges_from([(1, 2)], sbunch=[0], **w),
                  lambda w=w: S.compute_network_statistic(lambda g: 1, sbunch=[0], **w)]
    n = env.choose('call', range(len(calls)))
    try:
        calls[n]()
    except ValueError:
        env.cover('refused')
    else:
        env.require(False, 'an impossible request is accepted: %d' % n)
    env.require(len(S) == 1, 'a refused request changes nothing')
    same_graph(env, kind, list(S)[0], items[0], 'a refused request changes nothing')


# ------------------------------------------------------------------------------------------------ updates

def at_time(T, start, end):
    return OR(AND(start <= T, T < end), AND(EQ(start, end), EQ(T, start)))


def full_content(g):
    return [sorted((n, sorted(d.items())) for n, d in g.nodes(data=True)), sorted(g.graph.items()),
            g.is_directed(), g.is_multigraph(),
            sorted((e if g.is_directed() else tuple(sorted(e[:2])) + tuple(e[2:]), sorted(d.items()))
                   for e, d in ((x[:-1], x[-1]) for x in (g.edges(keys=True, data=True) if g.is_multigraph()
                                                          else g.edges(data=True))))]


def updates(env, kind, k, modes, what='edges', impulses='none', chain=False, sort='int', multi=False):
    """After updates of windows, what is active at an arbitrary time T is what was, and what the updates whose window
    holds T added."""
    S, items = series(env, kind, k, impulses, sort, 'insert', chain=chain, multi=multi)
    for n, it in enumerate(items):
        it[2].add_node(40 + n, colour=n)
        it[2].graph['source'] = n
        for u, v, d in it[2].edges(data=True):
            d['weight'] = 3 + n
    before = [it[2].copy() for it in items]
    lazily = env.flag('iterators')
    T = env.num('T', sort)
    active = [at_time(T, it[0], it[1]) for it in items]
    keep = [(it[0], it[1]) for it in items]
    upd = []
    for n, mode in enumerate(modes):
        if mode.startswith('sbunch'):
            order = in_order([(s.start, s.end) for s in map(_Key, S.snapshots.keys())])
            ix = env.choose('ix%d' % n, range(len(S)))
            key = list(S.snapshots.keys())[ix]
            kw, cond = {'sbunch': [ix]}, at_time(T, key[0], key[1])
        else:
            B, E = span(env, mode, sort, 'w%d' % n)
            kw = skw(B, E)
            cond = AND(True if B is None else T >= B, True if E is None else T < E)
        bunch = [(20, 21 + n)] if what == 'edges' else [20 + n]
        if lazily:
            bunch = iter(bunch)
        if what == 'edges':
            S.add_edges_from(bunch, w=n, **kw)
        else:
            S.add_nodes_from(bunch, w=n, **kw)
        upd.append(cond)
    got = list(S.snapshots.items())
    env.observe('keys', [(a, b) for (a, b), g in got])
    inside = [at_time(T, a, b) for (a, b), g in got]
    env.require(IFF(OR(active), OR(inside)), 'times covered by the snapshots')
    env.require(COUNT(inside) <= 1, 'a time is in two snapshots')
    for (a, b), g in got:
        env.require(a <= b, 'snapshot interval')
    for x, y in zip(got, got[1:]):
        env.require(x[0][0] < y[0][0], 'snapshots are not in order of time')
    for i, it in enumerate(items):
        for ((a, b), g), c in zip(got, inside):
            e = edges_as(kind, it[3])
            env.require(IMPLIES(AND(active[i], c), e <= edges_of(g)), 'what was there before an update is lost')
            for j, other in enumerate(items):
                if j != i:
                    o = edges_as(kind, other[3])
                    env.require(IMPLIES(AND(active[i], c), not (o & edges_of(g))), 'edges of another snapshot')
    for n, cond in enumerate(upd):
        for ((a, b), g), c in zip(got, inside):
            if what == 'edges':
                has = g.has_edge(20, 21 + n)
                if has:
                    d = g.get_edge_data(20, 21 + n)
                    env.require((d if not g.is_multigraph() else list(d.values())) == (
                        {'w': n} if not g.is_multigraph() else [{'w': n}]), 'data of the added edge')
            else:
                has = g.has_node(20 + n)
                if has:
                    env.require(g.nodes[20 + n] == {'w': n}, 'data of the added node')
            env.require(IMPLIES(c, IFF(cond, has)), 'an update holds exactly in its window')
            if has:
                env.cover('updated')
            else:
                env.cover('not updated')
    # apart from what was added, each snapshot is in every respect as before
    for ((a, b), g), c in zip(got, inside):
        rest = g.copy()
        rest.remove_nodes_from([x for x in list(rest) if 20 <= x < 40])
        rest = full_content(rest)
        for i, was in enumerate(before):
            env.require(IMPLIES(AND(active[i], c), rest == full_content(was)), 'the other contents of a snapshot')
    if len(got) > k:
        env.cover('split')


class _Key(object):
    def __init__(self, key):
        self.start, self.end = key


# ------------------------------------------------------------------------------------------------ per-snapshot answers

CONTENTS = [[(0, 1), (1, 2), (0, 0)], [(2, 1)], [(3, 4), (0, 1), (1, 4)], [(1, 0)], [(4, 4), (1, 3)], [(2, 4), (1, 3)],
            [(0, 2), (2, 1), (1, 0)], [(3, 1)]]


def answers(env, kind, k, method, mode='full', impulses='any', multi=False, chain=False):
    """A method of the snapshot graph answers with what the snapshots themselves answer, in order of time."""
    nx = sys.modules['networkx']
    S, items = series(env, kind, k, impulses, how='insert', contents=CONTENTS, multi=multi, chain=chain)
    for n, it in enumerate(items):
        for m, (u, v, d) in enumerate(it[2].edges(data=True)):
            d['w'] = 2 + n + m * m
    kw, want = selection(env, items, mode, k)
    gs = [items[i][2] for i in want]
    if method == 'degree':
        nb = env.choose('nbunch', [None, 1, [0, 1, 3]])
        wt = env.choose('weight', [None, 'w'])
        got = S.degree(nbunch=nb, weight=wt, **kw)
        plain = lambda d: d if isinstance(d, int) else dict(d)
        exp = [plain(g.degree(nb, weight=wt)) for g in gs if nb != 1 or g.has_node(1)] if nb is not None else \
            [dict(g.degree(weight=wt)) for g in gs]
        got = [plain(d) for d in got]
    elif method == 'size':
        wt = env.choose('weight', [None, 'w'])
        got, exp = S.size(weight=wt, **kw), [g.size(weight=wt) for g in gs]
    elif method == 'order':
        got, exp = S.order(**kw), [g.order() for g in gs]
    elif method == 'number_of_nodes':
        got, exp = S.number_of_nodes(**kw), [g.number_of_nodes() for g in gs]
    elif method == 'has_node':
        n = env.choose('n', [0, 2, 3, 9])
        got, exp = S.has_node(n, **kw), [n in g for g in gs]
    elif method == 'is_multigraph':
        got, exp = S.is_multigraph(**kw), [g.is_multigraph() for g in gs]
    elif method == 'is_directed':
        got, exp = S.is_directed(**kw), [directed(kind) for g in gs]
    elif method in ('to_directed', 'to_undirected'):
        res = getattr(S, method)(**kw)
        got = [(g.is_directed(), g.is_multigraph(), edge_bag(g)) for g in res]
        exp = [(h.is_directed(), h.is_multigraph(), edge_bag(h)) for h in (getattr(g, method)() for g in gs)]
    elif method == 'statistic':
        got = S.compute_network_statistic(lambda g, x: (x, sorted(g.edges())), x=3, **kw)
        exp = [(3, sorted(g.edges())) for g in gs]
    elif method == 'subgraph':
        nb = env.choose('nbunch', [[0, 1], [1, 2, 4], [9], []])
        S.graph.update(name='all of it', source=7)
        H = S.subgraph(nb, **kw)
        env.require(H.graph == {'name': 'all of it', 'source': 7}, 'attributes of the graph in the subgraph')
        if 'sbunch' in kw:
            order = in_order([items[i] for i in sorted(set(want))])
            want = [sorted(set(want))[i] for i in order]
        keys = list(H.snapshots.items())
        got = [(set(g.nodes()), g.is_multigraph(), g.is_directed(), edge_bag(g)) for _, g in keys]
        exp = [(set(n for n in items[i][2] if n in nb), items[i][2].is_multigraph(), directed(kind),
                [p for p in edge_bag(items[i][2]) if p[0] in nb and p[1] in nb]) for i in want]
        for (_, g), i in zip(keys, want):
            env.require(sorted(d['w'] for _, _, d in g.edges(data=True)) ==
                        sorted(d['w'] for u, v, d in items[i][2].edges(data=True) if u in nb and v in nb),
                        'edge data of the subgraph')
        env.require(len(keys) == len(want), 'number of snapshots of the subgraph')
        for (key, g), i in zip(keys, want):
            env.require(EQ(key, tuple(items[i][:2])), 'times of a snapshot of the subgraph')
    env.observe('answer', [(n, str(x)) for n, x in enumerate(got)] if method not in (
        'to_directed', 'to_undirected', 'subgraph', 'degree') else len(got))
    env.require(got == exp, 'answers of ' + method)
    env.cover('answers' if got else 'no answers')


# ------------------------------------------------------------------------------------------------ same answers

SNAP_QUESTIONS = ['all', 'get', 'degree', 'size', 'order', 'number', 'has_node', 'flags', 'copies', 'statistic', 'subgraph']
SNAP_OPS = ['insert', 'replace', 'edges', 'nodes', 'position', 'directly']


def snap_answers(B, E):
    def plain(g):
        return [sorted(g.nodes()), edge_bag(g), sorted(str(d) for _, _, d in g.edges(data=True)), g.is_directed(),
                g.is_multigraph()]
    w = skw(B, E)
    return {
        'all': lambda S: [len(S), [plain(g) for g in S]],
        'get': lambda S: [[plain(g) for g in S.get(**w)], [plain(g) for g in S.get()], plain(S.get(sbunch=[0])[0])],
        'degree': lambda S: [[sorted(dict(d).items()) for d in S.degree(**w)], [
            sorted(dict(d).items()) for d in S.degree(weight='w')]],
        'size': lambda S: [list(S.size(**w)), list(S.size()), list(S.size(weight='w', sbunch=[0]))],
        'order': lambda S: [list(S.order(**w)), list(S.order())],
        'number': lambda S: [list(S.number_of_nodes(**w)), list(S.number_of_nodes())],
        'has_node': lambda S: [list(S.has_node(n, **w)) + list(S.has_node(n)) for n in (0, 2, 9)],
        'flags': lambda S: [list(S.is_multigraph(**w)), list(S.is_directed(**w)), list(S.is_multigraph())],
        'copies': lambda S: [[plain(g) for g in S.to_directed(**w)], [plain(g) for g in S.to_undirected()]],
        'statistic': lambda S: list(S.compute_network_statistic(edge_bag, **w)),
        'subgraph': lambda S: [[list(k), plain(g)] for k, g in S.subgraph([0, 1, 9], **w).snapshots.items()]}


def same_answer(env, kind, op, question, k=2, impulses='none', chain=False, other=False):
    """What is answered follows from the snapshots which are there, even if the question was asked before they were
    changed (for the same, or for another window)."""
    from h_graph import alike
    nx = sys.modules['networkx']
    S, items = series(env, kind, k, impulses, how='insert', contents=CONTENTS, chain=chain)
    B, E = span(env, 'full')
    f = snap_answers(B, E)[question]
    if other:
        snap_answers(*span(env, 'full', prefix='p'))[question](S)
    else:
        f(S)
    if op == 'insert':
        a, b = env.num('a'), env.num('b')
        env.assume(a < b)
        apart(env, [(it[0], it[1], it[0] is it[1]) for it in items] + [(a, b, False)])
        S.insert((nx.DiGraph if directed(kind) else nx.Graph)([(0, 9), (9, 1)]), start=a, end=b)
    elif op == 'replace':
        S.insert((nx.DiGraph if directed(kind) else nx.Graph)([(0, 9), (9, 1)]), start=items[0][0], end=items[0][1])
    elif op in ('edges', 'nodes'):
        a, b = span(env, 'full', prefix='u')
        if op == 'edges':
            S.add_edges_from([(0, 9), (9, 1)], w=5, start=a, end=b)
        else:
            S.add_nodes_from([9, 10], start=a, end=b)
    elif op == 'none':
        pass
    elif op == 'position':
        S.add_edges_from([(0, 9), (9, 1)], w=5, sbunch=[env.choose('position', range(k))])
    else:
        list(S)[0].add_edge(0, 9, w=3)
    H = new(kind)
    for (s, e), g in list(S.snapshots.items()):
        H.insert(g.copy(), start=s, end=e)
    got, want = f(S), f(H)
    env.observe('answer', str(got) if question != 'subgraph' else [r[0] for r in got])
    env.require(alike(got, want), 'a new graph with the same snapshots answers otherwise')
    env.cover('same answer')


# ------------------------------------------------------------------------------------------------ contents

def contents(env, kind, k=2):
    """add_snapshot makes a graph of the edges given, with or without parallel edges as asked."""
    S = new(kind)
    times, want = [], []
    for i in range(k):
        imp = env.flag('imp%d' % i)
        s = env.num('s%d' % i)
        e = s if imp else env.num('e%d' % i)
        if not imp:
            env.assume(s < e)
        times.append((s, e, imp))
        apart(env, times)
        kw = {'time': s} if imp else {'start': s, 'end': e}
        multi = env.choose('multi%d' % i, [None, False, True]) if directed(kind) else None
        if multi is not None:
            kw['multi'] = multi
        es = [(0, 1), (1, 2), (0, 1), (1, 0), (i, i)]
        if env.flag('tuples%d' % i):
            es = [(u, v, {'w': 1}) for u, v in es]
        S.add_snapshot(iter(es) if env.flag('iterator%d' % i) else es, **kw)
        if directed(kind):
            bag = es if multi else sorted(set((u, v) for u, v in (x[:2] for x in es)))
        else:
            bag = [tuple(sorted(x[:2])) for x in es]
            if not multi:
                bag = sorted(set(bag))
        want.append((s, bool(multi), sorted(x[:2] for x in bag), len(es[0]) > 2))
    order = in_order(want)
    got = list(S)
    env.require(len(got) == k, 'number of snapshots')
    for g, i in zip(got, order):
        env.require(g.is_directed() == directed(kind), 'directedness')
        env.require(g.is_multigraph() == want[i][1], 'parallel edges are kept exactly if asked for')
        env.require(edge_bag(g) == want[i][2], 'edges of the snapshot')
        env.require(all(d == ({'w': 1} if want[i][3] else {}) for u, v, d in g.edges(data=True)), 'edge data')
    env.require(list(S.is_multigraph()) == [want[i][1] for i in order], 'is_multigraph')
    env.require(list(S.size()) == [len(want[i][2]) for i in order], 'size')
    env.observe('sizes', list(S.size()))
    env.cover('contents')


# ------------------------------------------------------------------------------------------------ independence

def independent(env, kind):
    """The directed and undirected graphs which a snapshot graph gives are copies."""
    from h_graph import spoil, frozen
    S, items = series(env, kind, 2, how='insert', contents=CONTENTS)
    for n, it in enumerate(items):
        for u, v in it[2].edges():
            it[2].edges[u, v]['w'] = 2 + n
        for v in it[2]:
            it[2].nodes[v]['color'] = n
    kw, want = selection(env, items, env.choose('mode', ['full', 'sbunch']), 2)
    res = getattr(S, env.choose('method', ['to_directed', 'to_undirected']))(**kw)
    own = [frozen(it[2]) for it in items]
    before = [frozen(g) for g in res]
    if not res:
        return
    if env.flag('change the snapshot'):
        spoil(items[want[0]][2])
        env.require([frozen(g) for g in res] == before, 'a copy changed with the snapshot')
    else:
        spoil(res[0])
        env.require([frozen(it[2]) for it in items] == own, 'a snapshot changed with the copy')
        for i, g in zip(in_order(items), S):
            env.require(g is items[i][2], 'snapshots')
    env.cover('independent')
