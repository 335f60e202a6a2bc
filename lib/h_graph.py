"""Harnesses for the interval and impulse graphs (undirected and directed)."""
import sys
from common import *            # noqa: F401,F403
from common import dnx

INC = [(True, True), (True, False), (False, True), (False, False)]

PATH3 = [(0, 1), (1, 2), (2, 0)]
TOPOS = {
    'one': [(0, 1)],
    'two': [(0, 1), (1, 2)],
    'par2': [(0, 1), (0, 1)],
    'rev2': [(0, 1), (1, 0)],
    'tri': [(0, 1), (1, 2), (2, 0)],
    'par3': [(0, 1), (0, 1), (0, 1)],
    'mix3': [(0, 1), (0, 1), (1, 2)],
    'rev3': [(0, 1), (1, 0), (1, 2)],
    'loop2': [(0, 0), (0, 1)],
    'loop3': [(0, 0), (0, 1), (1, 0)],
    'loops2': [(0, 0), (1, 1)],
    'looped': [(0, 0), (0, 1), (1, 1)],
    'parloop': [(0, 0), (0, 0), (0, 1)],
    'revpar': [(0, 1), (1, 0), (0, 1)],
    'star3': [(0, 1), (0, 2), (3, 0)],
    'path4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'mix4': [(0, 1), (1, 2), (0, 1), (2, 0)],
    'path5': [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)],
    'mix5': [(0, 1), (1, 2), (0, 1), (2, 0), (0, 1)],
    'path6': [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)],
}

for _n in (6, 8, 10, 12, 16, 20, 40, 70):
    for _s in range(6):
        TOPOS['wide%d%s' % (_n, 'abcdef'[_s])] = Wide(_n, _s)


def inc_of(env, kind, inc):
    """inc: 'default' (do not pass it), 'any' (every combination), or a pair."""
    if interval_kind(kind):
        return None, (True, False)
    if inc == 'default':
        return None, (True, False)
    if inc == 'any':
        inc = env.choose('inc', INC)
    return tuple(inc), tuple(inc)


# ------------------------------------------------------------------------------------------------ window queries

def topology(topo):
    if isinstance(topo, str):
        return TOPOS[topo]
    return [(i, i + 1) for i in range(topo)] if isinstance(topo, int) else [tuple(x) for x in topo]


def edges_window(env, kind, topo, mode='full', sort='int', style='sym', inc='any', degenerate=False, order=None):
    G, ns, ref = build(env, kind, topology(topo), style=style, sort=sort, degenerate=degenerate, order=order)
    B, E = window(env, mode, sort)
    passed, inc = inc_of(env, kind, inc)
    got = list(G.edges(**wkw(B, E, passed)))
    env.observe('edges', got)
    require_edges(env, ref, got, lambda x: ref.inwin(x, B, E, inc), 'edges in the window')


# ------------------------------------------------------------------------------------------------ queries with nodes

def group(env, name, ns):
    """The nodes ns as one of the things which hold several nodes."""
    how = env.choose(name, ['list', 'tuple', 'frozenset', 'set', 'repeated'])
    if how == 'repeated':
        return list(ns) + list(reversed(ns))
    return {'list': list, 'tuple': tuple, 'frozenset': frozenset, 'set': set}[how](ns)


def edges_nodes(env, kind, topo, form, mode='full', style='sym', inc='any', sort='int', degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), style=style, sort=sort, extra=1, degenerate=degenerate)
    B, E = window(env, mode, sort)
    passed, inc = inc_of(env, kind, inc)
    m = len(ns)                       # the last node is not in the graph
    kw = wkw(B, E, passed)
    us = vs = None
    if form in ('u', 'uv', 'u_vl'):
        u = ns[env.choose('u', range(m))]
        kw['u'], us = u, [u]
    if form in ('v', 'uv', 'ul_v'):
        v = ns[env.choose('v', range(m))]
        kw['v'], vs = v, [v]
    if form in ('ul', 'ul_v', 'ul_vl'):
        us = [n for i, n in enumerate(ns) if env.flag('inu%d' % i)]
        kw['u'] = group(env, 'utype', us) if style == 'sym' else list(us)
    if form in ('vl', 'u_vl', 'ul_vl'):
        vs = [n for i, n in enumerate(ns) if env.flag('inv%d' % i)]
        kw['v'] = group(env, 'vtype', vs) if form == 'vl' and style == 'sym' else list(vs)
    got = list(G.edges(**kw))
    env.observe('edges', got)
    require_edges(env, ref, got, lambda x: AND(ref.matches(x, us, vs), ref.inwin(x, B, E, inc)), 'edges of the nodes')


# ------------------------------------------------------------------------------------------------ membership

def membership(env, kind, topo, what, mode='full', style='sym', inc='any', isolated=True, degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), style=style, extra=2, degenerate=degenerate)
    iso, stranger = ns[-2], ns[-1]
    if isolated:
        G.add_node(iso)
        ref.add_node(iso)
    B, E = window(env, mode)
    passed, inc = inc_of(env, kind, inc)
    kw = wkw(B, E, passed)
    nowin = mode == 'none'
    if nowin:
        kw = {}

    def node_in(n):
        if nowin:
            return any(it[0] == n for it in ref.nodes)
        return OR([AND(p, ref.incident(x, n), ref.inwin(x, B, E, inc)) for x, p in ref.present()])

    if what == 'has_edge':
        u = ns[env.choose('u', range(len(ns)))]
        v = ns[env.choose('v', range(len(ns)))]
        if kind == 'PDG' and passed is None:
            inc = (True, True)
        got = G.has_edge(u, v, **kw)
        want = OR([AND(p, ref.between(x, u, v), True if nowin else ref.inwin(x, B, E, inc)) for x, p in ref.present()])
        env.observe('has_edge', bool(got))
        env.require(IFF(want, bool(got)), 'has_edge')
        env.cover('has_edge %s' % bool(got))
    elif what == 'has_node':
        n = ns[env.choose('n', range(len(ns)))]
        got = G.has_node(n, **kw)
        env.observe('has_node', bool(got))
        env.require(IFF(node_in(n), bool(got)), 'has_node')
        env.cover('has_node %s' % bool(got))
        if nowin:
            env.require((n in G) == bool(got), 'in')
            env.require(([] in G) is False and ({} in G) is False, 'what cannot be a node is not in the graph')
    else:
        got = G.nodes(**kw)
        lst = list(got)
        env.observe('nodes', lst)
        require_set(env, lst, [(n, node_in(n)) for n in ns], 'nodes')
        cnt = G.number_of_nodes(**kw)
        env.require(cnt == len(lst), 'number_of_nodes')
        if nowin:
            env.require(len(G) == len(lst), 'len')
        env.cover('nodes some')
        if len(lst) < len(ns) - 1:
            env.cover('nodes not all')


def has_edge_exact(env, kind, topo, style='sym', degenerate=False):
    """overlapping=False: exactly this interval; remove_edge with it removes exactly that edge."""
    G, ns, ref = build(env, kind, topology(topo), style=style, extra=1, degenerate=degenerate)
    B, E = env.num('B'), env.num('E')
    env.assume(B <= E)
    u = ns[env.choose('u', range(len(ns)))]
    v = ns[env.choose('v', range(len(ns)))]
    got = bool(G.has_edge(u, v, B, E, overlapping=False))
    env.observe('exact', got)
    env.cover('exact %s' % got)

    def exact(x):
        return AND(ref.between(x, u, v), EQ(x[2], B), EQ(x[3], E))
    env.require(IFF(OR([AND(p, exact(x)) for x, p in ref.present()]), got), 'has_edge of the exact interval')
    G.remove_edge(u, v, B, E, overlapping=False)
    ref.remove_where(exact)
    require_edges(env, ref, G.edges(), lambda x: True, 'left after removing the exact interval')


# ------------------------------------------------------------------------------------------------ histories

def check_views(env, kind, G, ns, ref, full=True, label='after the history', window_too=True):
    """Every way of asking for the edges gives the edges which are there: all edges, by window, by node, by pair."""
    got = list(G.edges())
    env.observe('edges', got)
    require_edges(env, ref, got, lambda x: True, label + ', all edges')
    if window_too:
        B, E = env.num('qB'), env.num('qE')
        env.assume(B <= E)
        gotw = list(G.edges(begin=B, end=E))
        env.observe('window', gotw)
        require_edges(env, ref, gotw, lambda x: ref.inwin(x, B, E), label + ', by window')
    if full:
        for n in ns:
            require_edges(env, ref, G.edges(u=n), lambda x, n=n: ref.matches(x, [n], None), label + ', by node', False)
            if ref.dir:
                require_edges(env, ref, G.edges(v=n), lambda x, n=n: ref.matches(x, None, [n]), label + ', by end node',
                              False)
        for n in ns:
            for m in ns:
                env.require(IFF(OR([AND(p, ref.between(x, n, m)) for x, p in ref.present()]), bool(G.has_edge(n, m))),
                            label + ', has_edge')


def check_nodes(env, G, ns, ref, label='after the history'):
    require_set(env, list(G.nodes()), [(n, p) for n, p in ref.nodes], label + ', nodes')
    for n, p in ref.nodes:
        env.require(IFF(p, n in G), label + ', in')


def check_interval(env, kind, G, ref, label='interval'):
    """interval() spans exactly the edges which are there."""
    pres = [(x, p) for x, p in ref.present()]
    some = OR([p for _, p in pres])
    if env.symbolic:
        if not bool(some):
            return
    elif not some:
        return
    lo, hi = G.interval()
    env.observe('interval', (lo, hi))
    last = 3 if interval_kind(kind) else 2
    env.require(OR([AND(p, EQ(x[2], lo)) for x, p in pres]), label + ': begin is no begin of an edge')
    env.require(OR([AND(p, EQ(x[last], hi)) for x, p in pres]), label + ': end is no end of an edge')
    for x, p in pres:
        env.require(IMPLIES(p, AND(lo <= x[2], x[last] <= hi)), label + ': an edge outside')


def do_op(env, kind, G, ns, ref, op, i, pairs):
    """One operation of a history, chosen by its name; its times are arbitrary."""
    iv = interval_kind(kind)
    if op == 'add':
        a, b = pairs
        x = (ns[a], ns[b]) + edge_times(env, kind, i, degenerate=getattr(env, 'degenerate', False))
        for y, p in ref.present():
            if y[0] == x[1] and y[1] == x[0] and a != b and not ref.dir:
                env.assume(NOT(EQ(x[2:], y[2:])))
        G.add_edge(*x)
        ref.add(x)
    elif op == 'readd':
        j = pairs
        x = ref.items[j][0]
        G.add_edge(*x)
        ref.add(x)
    elif op == 'cut':                 # remove_edge over a window
        a, b = pairs
        B, E = window(env, 'full', prefix='r%d' % i)
        if iv:
            G.remove_edge(ns[a], ns[b], B, E)
            ref.remove_where(lambda x: AND(ref.between(x, ns[a], ns[b]), ref.inwin(x, B, E)))
        else:
            inc = env.choose('rinc%d' % i, INC + ['default'])
            if inc == 'default':
                inc = (True, directed(kind))
                G.remove_edge(ns[a], ns[b], B, E)
            else:
                G.remove_edge(ns[a], ns[b], B, E, inclusive=inc)
            ref.remove_where(lambda x: AND(ref.between(x, ns[a], ns[b]), ref.inwin(x, B, E, inc)))
    elif op in ('cutfrom', 'cutto'):   # a bound which is left out does not restrict
        a, b = pairs
        B, E = window(env, 'begin' if op == 'cutfrom' else 'end', prefix='r%d' % i)
        inc = (True, True)
        kw = wkw(B, E)
        if not iv:
            inc = env.choose('rinc%d' % i, INC + ['default'])
            if inc == 'default':
                inc = (True, directed(kind))
            else:
                kw['inclusive'] = inc
            if op == 'cutfrom':
                inc = (inc[0], True)
        G.remove_edge(ns[a], ns[b], **kw)
        ref.remove_where(lambda x: AND(ref.between(x, ns[a], ns[b]), ref.inwin(x, B, E, inc)))
    elif op == 'exact':               # remove the edge with an interval (at a moment) which may or may not be there
        a, b = pairs
        x = (ns[a], ns[b]) + edge_times(env, kind, 70 + i)
        if iv:
            G.remove_edge(*x, overlapping=False)
        else:
            G.remove_edge(x[0], x[1], x[2], x[2])
        ref.remove_where(lambda y: AND(ref.between(y, x[0], x[1]), EQ(y[2:], x[2:])))
    elif op == 'drop':                # remove one edge which is there
        x = ref.items[pairs][0]
        if iv:
            G.remove_edge(*x, overlapping=False)
        else:
            G.remove_edge(x[0], x[1], x[2], x[2])
        if iv and not ref.dir:
            ref.remove_where(lambda y: AND(ref.between(y, x[0], x[1]), EQ(y[2:], x[2:])))
        else:
            ref.remove_where(lambda y: AND(ref.between(y, x[0], x[1]), EQ(y[2:], x[2:])))
    elif op == 'dropall':
        a, b = pairs
        G.remove_edge(ns[a], ns[b])
        ref.remove_where(lambda x: ref.between(x, ns[a], ns[b]))
    elif op == 'node':
        n = ns[pairs]
        G.remove_node(n)
        ref.remove_node(n, lambda x: True)
    elif op == 'nodewin':
        n = ns[pairs]
        B, E = window(env, 'full', prefix='r%d' % i)
        if iv:
            G.remove_node(n, B, E)
            ref.remove_node(n, lambda x: ref.inwin(x, B, E))
        else:
            inc = env.choose('rinc%d' % i, INC + ['default'])
            if inc == 'default':
                inc = (True, False)
                G.remove_node(n, B, E)
            else:
                G.remove_node(n, B, E, inclusive=inc)
            ref.remove_node(n, lambda x: ref.inwin(x, B, E, inc))
    elif op in ('nodefrom', 'nodeto'):
        n = ns[pairs]
        B, E = window(env, 'begin' if op == 'nodefrom' else 'end', prefix='r%d' % i)
        inc = (True, True)
        kw = wkw(B, E)
        if not iv:
            inc = env.choose('rinc%d' % i, INC + ['default'])
            if inc == 'default':
                inc = (True, False)
            else:
                kw['inclusive'] = inc
            if op == 'nodefrom':
                inc = (inc[0], True)
        G.remove_node(n, **kw)
        ref.remove_node(n, lambda x: ref.inwin(x, B, E, inc))
    elif op == 'isolated':
        G.add_node(ns[pairs])
        ref.add_node(ns[pairs])
    elif op == 'attr':                # add an edge which is there, with an attribute
        x = ref.items[pairs][0]
        G.add_edge(*x, w=700 + i)
        ref.add(x, w=700 + i)
    else:
        raise ValueError(op)


def big_history(env, kind, order, drops=1, style='sym', full=False, which='any', views=True):
    """Many edges (beginning in a given order of insertion, otherwise at arbitrary times), some of which are removed
    again one by one; then a window query, and after each removal the extent of the graph."""
    n = len(order)
    G, ns, ref = build(env, kind, [(0, 1 + i % 3) for i in range(n)], style=style, order=order)
    left = list(range(n))
    for d in range(drops):
        k = env.choose('drop%d' % d, left) if which == 'any' else which[d]
        left.remove(k)
        do_op(env, kind, G, ns, ref, 'drop', 90 + d, k)
        check_interval(env, kind, G, ref)
    if views:
        check_views(env, kind, G, ns, ref, full=full)


def history(env, kind, ops, nn=3, style='sym', nodes=False, interval=False, full=False, stamps=False,
            degenerate=False, window_too=True):
    env.degenerate = degenerate
    G = new(kind)
    ns = make_nodes(env, nn, style)
    ref = Ref(kind)
    for i, (op, arg) in enumerate(ops):
        if isinstance(arg, list) and arg and arg[0] == 'any':
            arg = env.choose('arg%d' % i, arg[1])
        do_op(env, kind, G, ns, ref, op, i, arg)
    check_views(env, kind, G, ns, ref, full=full, window_too=window_too)
    if nodes:
        check_nodes(env, G, ns, ref)
    if interval:
        check_interval(env, kind, G, ref)
    if stamps:
        check_stamps(env, G, ref, 'unique_timestamps', None, None, None)


def wide_history(env, kind, topo, ops, full=True):
    """Operations on a graph with many edges (in a fixed order in time)."""
    G, ns, ref = build(env, kind, topology(topo))
    for i, (op, arg) in enumerate(ops):
        if isinstance(arg, list) and arg and arg[0] == 'any':
            arg = env.choose('arg%d' % i, arg[1])
        do_op(env, kind, G, ns, ref, op, 50 + i, arg)
    check_views(env, kind, G, ns, ref, full=full)
    check_nodes(env, G, ns, ref)
    if len(ref.items):
        check_interval(env, kind, G, ref)


# ------------------------------------------------------------------------------------------------ no edges

def questions(env, kind, G, ns, B, E):
    """Questions to a graph without edges, with the answers."""
    iv = interval_kind(kind)
    wins = [wkw(B, E), wkw(B, None), wkw(None, E)]
    a, b = ns[0], ns[1]
    q = {}
    for i, w in enumerate([{}] + wins):
        q['edges %d' % i] = (lambda w=w: list(G.edges(**w)) + list(G.edges(data=True, **w)) + list(
            G.edges(data='w', **w)), [])
        q['edges u %d' % i] = (lambda w=w: list(G.edges(u=a, **w)) + list(G.edges(v=b, **w)) + list(
            G.edges(u=a, v=b, **w)) + list(G.edges(u=[a, b], **w)) + list(G.edges(u=[a], v=[a, b], data=True, **w)), [])
        q['has_edge %d' % i] = (lambda w=w: bool(G.has_edge(a, b, **w)) or bool(G.has_edge(a, a, **w)), False)
        q['degree %d' % i] = (lambda w=w: [G.degree(a, **w), G.degree(b, **w)], [0, 0])
        q['changes %d' % i] = (lambda w=w: list(G.degree(a, delta=True, **w)), [])
        if directed(kind):
            q['in %d' % i] = (lambda w=w: [G.in_degree(a, **w), G.out_degree(b, **w)], [0, 0])
            q['in changes %d' % i] = (lambda w=w: list(G.in_degree(a, delta=True, **w)) + list(
                G.out_degree(a, delta=True, **w)), [])
        if iv:
            q['stamps %d' % i] = (lambda w=w: list(G.unique_timestamps(**w)) + list(
                G.unique_begin_timestamps(**w)) + list(G.unique_end_timestamps(**w)), [])
    for i, w in enumerate(wins):
        q['nodes %d' % i] = (lambda w=w: list(G.nodes(**w)) + list(G.nodes(data=True, **w)), [])
        q['has_node %d' % i] = (lambda w=w: bool(G.has_node(a, **w)) or bool(G.has_node(b, **w)), False)
        q['number %d' % i] = (lambda w=w: G.number_of_nodes(**w), 0)
    for mu in (False, True):
        def sub(mu=mu):
            g = G.to_subgraph(B, E, multigraph=mu, edge_data=True, node_data=True, **{tname(kind): True})
            return [list(g.nodes()), list(g.edges()), g.is_directed(), g.is_multigraph()]
        q['static %d' % mu] = (sub, [[], [], directed(kind), mu])
    q['snapshot graph'] = (lambda: [len(list(G.to_snapshot_graph())), len(list(G.to_snapshot_graph(edge_data=True)))],
                           [0, 0])
    q['exact'] = (lambda: (G.has_edge(a, b, B, E, overlapping=False) if iv else G.has_edge(a, b, B, B)), False)
    q['remove edge'] = (lambda: [G.remove_edge(a, b), G.remove_edge(a, b, begin=B), G.remove_edge(a, b, B, E)],
                        [None] * 3)
    q['remove stranger'] = (lambda: [G.remove_node('none'), G.remove_node('none', B, E)], [None] * 2)
    q['add none'] = (lambda: [G.add_edges_from([]), G.add_edges_from(iter(())), G.add_nodes_from([])], [None] * 3)
    return q


def no_edges(env, kind, how):
    """A graph without edges answers every question (as having none), and takes edges afterwards."""
    G = new(kind)
    ns = make_nodes(env, 3, 'sym')
    ref = Ref(kind)
    if how != 'new':
        G.add_node(ns[0])
        ref.add_node(ns[0])
    if how == 'removed':              # all of the edges are removed again
        for i, (a, b) in enumerate([(0, 1), (1, 1)]):
            x = (ns[a], ns[b]) + edge_times(env, kind, i)
            G.add_edge(*x)
            ref.add(x)
            way = env.choose('way%d' % i, ['pair', 'exact', 'from'])
            if way == 'pair':
                G.remove_edge(ns[a], ns[b])
            elif way == 'exact':
                do_op(env, kind, G, ns, ref, 'drop', 90 + i, i)
            else:
                G.remove_edge(ns[a], ns[b], begin=x[2])
            ref.remove_where(lambda y: True)
    elif how == 'node removed':
        x = (ns[0], ns[1]) + edge_times(env, kind, 0)
        G.add_edge(*x)
        G.remove_node(ns[0])
        ref.add(x)
        ref.remove_node(ns[0], lambda y: True)
    B, E = window(env, 'full')
    env.assume(B < E)
    q = questions(env, kind, G, ns, B, E)
    f, want = q[env.choose('question', sorted(q))]
    got = f()
    env.observe('answer', str(got))
    env.require(got == want, 'the answer')
    check_nodes(env, G, ns, ref, 'afterwards')
    env.require(G.number_of_nodes() == len(list(G.nodes())), 'number of nodes afterwards')
    x = (ns[1], ns[2]) + edge_times(env, kind, 5)
    G.add_edge(*x)
    ref.add(x)
    check_views(env, kind, G, ns, ref, label='afterwards')
    check_interval(env, kind, G, ref, 'interval afterwards')
    env.cover('no edges')


# ------------------------------------------------------------------------------------------------ same answers

def answers_of(kind, ns, B, E):
    """Questions: the name, and a function of the graph which gives the answer as ('bag', ...), where the order is of
    no meaning, or as it is."""
    iv = interval_kind(kind)
    a, b, c = ns[0], ns[1], ns[-1]

    def pair(r):
        if not directed(kind) and [n == r[0] for n in ns].index(True) > [n == r[1] for n in ns].index(True):
            return (r[1], r[0]) + tuple(r[2:])
        return tuple(r)

    def bag(rs, f=pair):
        return ('bag', [f(r) for r in rs])

    def changes(rs):                  # of impulse graphs, the times come in no particular order
        return [tuple(r) for r in rs] if iv else ('bag', [tuple(r) for r in rs])

    def mean(*fs):
        try:
            return [f() for f in fs]
        except ZeroDivisionError:     # there is no mean over no nodes
            return 'none'

    def data(rs):
        return ('bag', [pair(r) + (sorted(d.items()),) for r, d in rs])

    def static(g):
        return [bag(g.nodes(data=True), lambda r: (r[0], sorted(r[1].items()))), g.is_directed(), g.is_multigraph(),
                bag(g.edges(data=True), lambda r: pair(r)[:2] + (sorted(r[2].items()),))]

    more = {'edge_data': True, tname(kind): True, 'node_data': True}
    q = {}
    for i, w in enumerate([{}, wkw(B, E)]):
        q['edges %d' % i] = lambda G, w=w: [bag(G.edges(**w)), data(G.edges(data=True, **w))]
        q['edges u %d' % i] = lambda G, w=w: [bag(G.edges(u=a, **w)), bag(G.edges(v=b, **w))]
        q['edges uv %d' % i] = lambda G, w=w: bag(G.edges(u=a, v=b, **w))
        q['edges ul %d' % i] = lambda G, w=w: bag(G.edges(u=[a, b, c], **w))
        q['has_edge %d' % i] = lambda G, w=w: [bool(G.has_edge(a, b, **w)), bool(G.has_edge(b, c, **w))]
        q['has_node %d' % i] = lambda G, w=w: [bool(G.has_node(n, **w)) for n in ns]
        q['nodes %d' % i] = lambda G, w=w: bag(G.nodes(**w), lambda r: r)
        q['number %d' % i] = lambda G, w=w: G.number_of_nodes(**w)
        q['degree %d' % i] = lambda G, w=w: [G.degree(a, **w), G.degree(b, **w)]
        q['mean %d' % i] = lambda G, w=w: mean(lambda: G.degree(**w))
        q['changes %d' % i] = lambda G, w=w: changes(G.degree(a, delta=True, **w))
        if iv:
            q['stamps %d' % i] = lambda G, w=w: [list(G.unique_timestamps(**w)), list(
                G.unique_begin_timestamps(**w)), list(G.unique_end_timestamps(**w))]
        if directed(kind):
            q['in %d' % i] = lambda G, w=w: [G.in_degree(b, **w), G.out_degree(b, **w)]
            q['in mean %d' % i] = lambda G, w=w: mean(lambda: G.in_degree(**w), lambda: G.out_degree(**w))
            q['in changes %d' % i] = lambda G, w=w: [changes(G.in_degree(b, delta=True, **w)),
                                                     changes(G.out_degree(b, delta=True, **w))]
    q['len'] = lambda G: [len(G), a in G, b in G, c in G]
    q['interval'] = lambda G: list(G.interval())
    q['static'] = lambda G: static(G.to_subgraph(B, E, multigraph=True, **more))
    q['networkx'] = lambda G: static(G.to_networkx_graph(B, E, **more))
    q['two'] = lambda G: [static(g) for g in G.to_snapshots(number_of_snapshots=2, multigraph=True, **more)]
    q['snapshot graph'] = lambda G: [list(k) + static(g) for k, g in
                                     G.to_snapshot_graph(multigraph=True, **more).snapshots.items()]
    return q


QUESTIONS = ['edges 0', 'edges 1', 'edges u 0', 'edges u 1', 'edges uv 0', 'edges uv 1', 'edges ul 0', 'edges ul 1',
             'has_edge 0', 'has_edge 1', 'has_node 0', 'has_node 1', 'nodes 0', 'nodes 1', 'number 0', 'number 1',
             'degree 0', 'degree 1', 'mean 0', 'mean 1', 'changes 0', 'changes 1', 'len', 'interval', 'static',
             'networkx', 'two', 'snapshot graph']
QUESTIONS_IV = ['stamps 0', 'stamps 1']
QUESTIONS_DIR = ['in 0', 'in 1', 'in mean 0', 'in mean 1', 'in changes 0', 'in changes 1']


def alike(a, b):
    """The formula under which the answers are the same."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        if len(a) == 2 and isinstance(a[0], str) and a[0] == 'bag':
            x, y = a[1], b[1]
            if not isinstance(b[0], str) or len(x) != len(y):
                return False
            return AND([EQ(COUNT([alike(r, s) for s in x]), COUNT([alike(r, s) for s in y])) for r in x + y])
        return AND([alike(r, s) for r, s in zip(a, b)])
    return EQ(a, b)


def answerable(env, kind, ref, question):
    """Whether the question can be asked: some need edges, or edges at different times."""
    if question not in ('two', 'interval'):
        return True
    some = OR([p for _, p in ref.present()])
    if some is False or some is not True and not bool(some):
        return False
    if question == 'two':
        lo, hi = true_extent(env, kind, ref)
        return bool(lo < hi)
    return True


def same_answer(env, kind, topo, ops, question, asked=True, model=False):
    """What is answered follows from the edges and nodes which are there, not from how they came to be there: a new
    graph with them gives the same answer, even if the question was asked before: before each of the operations (asked
    is True), before the first of them ('first'), or before the first of them, for another window and other nodes
    ('other')."""
    G, ns, ref = build(env, kind, topology(topo), attrs=attr_of, distinct=True, extra=1)
    B, E = env.num('qB'), env.num('qE')
    env.assume(B < E)
    f = ask = answers_of(kind, ns, B, E)[question]
    if asked == 'other':
        B2, E2 = env.num('pB'), env.num('pE')
        env.assume(B2 < E2)
        ask = answers_of(kind, ns[1:] + ns[:1], B2, E2)[question]
    if model:
        give_model(env, G, (0, 1))
    if not ops and answerable(env, kind, ref, question):
        ask(G)
    for i, (op, arg) in enumerate(ops):
        if isinstance(arg, list) and arg and arg[0] == 'any':
            arg = env.choose('arg%d' % i, arg[1])
        if asked and (i == 0 or asked is True) and answerable(env, kind, ref, question):
            ask(G)
        do_op(env, kind, G, ns, ref, op, 50 + i, arg)
    H = new(kind)
    for n, p in ref.nodes:
        if p is True or p is not False and bool(p):
            H.add_node(n)
    for x, p, d in ref.items:
        if p is True or p is not False and bool(p):
            H.add_edge(*x, **{k: v for k, v, c in d if c is True or c is not False and bool(c)})
    if not answerable(env, kind, ref, question):
        env.cover('nothing left')
        return
    got = f(G)
    want = f(H)
    env.observe('answer', got)
    env.require(alike(got, want), 'a new graph with the same edges and nodes answers otherwise')
    env.cover('same answer')


# ------------------------------------------------------------------------------------------------ time extent

def extent(env, kind, topo, sort='int', drop=False, degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), sort=sort, degenerate=degenerate)
    if drop:
        k = env.choose('drop', range(len(ref.items)))
        do_op(env, kind, G, ns, ref, 'drop', 90, k)
    check_interval(env, kind, G, ref)


def check_stamps(env, G, ref, meth, B, E, inc):
    kw = {}
    if B is not None:
        kw['begin'] = B
    if E is not None:
        kw['end'] = E
    if inc is not None:
        kw['inclusive'] = inc
    got = list(getattr(G, meth)(**kw))
    env.observe(meth, got)
    cols = {'unique_timestamps': (2, 3), 'unique_begin_timestamps': (2,), 'unique_end_timestamps': (3,)}[meth]
    inc = inc or (True, True)

    def ok(t):
        return AND(True if B is None else ((t >= B) if inc[0] else (t > B)),
                   True if E is None else ((t <= E) if inc[1] else (t < E)))
    for r in got:
        env.require(OR([AND(p, EQ(x[c], r), ok(x[c])) for x, p in ref.present() for c in cols]),
                    meth + ': not a time of the window')
    for x, p in ref.present():
        for c in cols:
            env.require(IMPLIES(AND(p, ok(x[c])), OR([EQ(x[c], r) for r in got])), meth + ': a missing time')
    for a, b in zip(got, got[1:]):
        env.require(a < b, meth + ': not sorted, or twice')
    env.cover('stamps some' if got else 'stamps none')


def stamps(env, kind, topo, meth, mode='full', inc='any', drop=False, degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), degenerate=degenerate)
    if drop:
        k = env.choose('drop', range(len(ref.items)))
        do_op(env, kind, G, ns, ref, 'drop', 90, k)
    B, E = window(env, mode)
    ic = env.choose('inc', INC) if inc == 'any' else None
    if mode != 'full' and ic is not None:      # without a bound the ends of the graph are the bounds, inclusively
        ic = (ic[0] if B is not None else True, ic[1] if E is not None else True)
    check_stamps(env, G, ref, meth, B, E, ic)


# ------------------------------------------------------------------------------------------------ degrees

def deg_want(ref, n, which, cond):
    """The number of edge ends at n over the edges for which cond holds."""
    cs = []
    for x, p in ref.present():
        if ref.dir:
            if which in ('degree', 'out_degree') and x[0] == n:
                cs.append(AND(p, cond(x)))
            if which in ('degree', 'in_degree') and x[1] == n:
                cs.append(AND(p, cond(x)))
        elif ref.incident(x, n):
            cs.append(AND(p, cond(x)))
    return COUNT(cs)


def degree(env, kind, topo, which='degree', mode='full', inc='any', style='sym', degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), style=style, distinct=True, degenerate=degenerate)
    B, E = window(env, mode)
    passed, inc = inc_of(env, kind, inc)
    n = ns[env.choose('n', range(len(ns)))]
    got = getattr(G, which)(n, **wkw(B, E, passed))
    env.observe('degree', got)
    if mode in ('none', 'begin') and not ref.iv:
        inc = (inc[0], True)
    env.require(EQ(deg_want(ref, n, which, lambda x: ref.inwin(x, B, E, inc)), got), which)
    env.cover('degree %s' % ('some' if got else 'zero'))


def mean_degree(env, kind, topo, which='degree', mode='full', inc='default', degenerate=False, isolated=False):
    G, ns, ref = build(env, kind, topology(topo), distinct=True, degenerate=degenerate, extra=1 if isolated else 0)
    if isolated:                      # a node without edges counts when no window is given
        G.add_node(ns[-1])
    B, E = window(env, mode)
    passed, inc = inc_of(env, kind, inc)
    if mode in ('none', 'begin') and not ref.iv:
        inc = (inc[0], True)
    isin = [OR([AND(p, ref.incident(x, n), ref.inwin(x, B, E, inc)) for x, p in ref.present()]) for n in ns]
    some = OR(isin)
    env.assume(some)
    got = getattr(G, which)(**wkw(B, E, passed))
    env.observe('mean', got)
    total = 0
    for n in ns:
        total = total + deg_want(ref, n, which, lambda x: ref.inwin(x, B, E, inc))
    # the mean is a floating-point quotient: the number of nodes times it is the number of edge ends up to rounding
    here = len(ns) if mode == 'none' else COUNT(isin)
    prod = here * got
    env.require(AND(prod - total < 2.0 ** -20, total - prod < 2.0 ** -20), 'mean ' + which)
    env.cover('mean')


def degree_delta(env, kind, topo, which='degree', mode='full', inc='default'):
    G, ns, ref = build(env, kind, topology(topo), distinct=True)
    B, E = window(env, mode)
    passed, inc = inc_of(env, kind, inc)
    if mode == 'full' and ref.iv:
        env.assume(B < E)
    if ref.iv and (B is None) != (E is None):     # the other bound is that of the graph
        lo, hi = true_extent(env, kind, ref)
        if B is None:
            env.assume(lo != E)
        else:
            env.assume(B != hi)
    n = ns[env.choose('n', [0, 1])]
    got = list(getattr(G, which)(n, delta=True, **wkw(B, E, passed)))
    env.observe('delta', got)

    def mine(x):
        if not ref.dir or which == 'degree':
            return ref.incident(x, n)
        return x[0] == n if which == 'out_degree' else x[1] == n

    if ref.iv:
        gb = B
        ge = E
        if B is None or E is None:
            gb0, ge0 = G.interval()
            gb = gb0 if B is None else B
            ge = ge0 if E is None else E
            if gb > ge:
                env.require(got == [], 'changes beyond the edges')
                env.cover('beyond the edges')
                return
        times = []
        for x, p in ref.present():
            w = AND(p, mine(x), ref.inwin(x, gb, ge))
            times.append((x[2], AND(w, x[2] >= gb)))
            times.append((x[3], AND(w, x[3] < ge)))
        for t, c in times:
            env.require(IMPLIES(c, OR([EQ(t, r[0]) for r in got])), 'a time of change is missing')
        for r in got:
            env.require(OR([AND(c, EQ(t, r[0])) for t, c in times]), 'a time without a change')
        for a, b in zip(got, got[1:]):
            env.require(a[0] <= b[0], 'the changes are not in order of time')
        for k, r in enumerate(got):
            last = k + 1 == len(got) or NOT(EQ(got[k + 1][0], r[0]))
            env.require(IMPLIES(last, EQ(r[1], deg_want(ref, n, which, lambda x: AND(x[2] <= r[0], r[0] < x[3])))),
                        'the degree after the last change at that time')
    else:
        if mode in ('none', 'begin'):
            inc = (inc[0], True)
        for k, r in enumerate(got):
            env.require(EQ(r[1], deg_want(ref, n, which, lambda x: AND(EQ(x[2], r[0]), ref.inwin(x, B, E, inc)))),
                        'the degree at that time')
            env.require(r[1] > 0, 'a time without an edge')
            for q in got[k + 1:]:
                env.require(NOT(EQ(r[0], q[0])), 'a time twice')
        for x, p in ref.present():
            env.require(IMPLIES(AND(p, mine(x), ref.inwin(x, B, E, inc)), OR([EQ(x[2], r[0]) for r in got])),
                        'a time of an edge is missing')
    env.cover('delta some' if got else 'delta none')


# ------------------------------------------------------------------------------------------------ attributes

def attr_of(i):
    return {'w': i + 1, 'k%d' % i: i + 10}


def odd_attr(shift):
    """Attributes which differ from edge to edge: none at all, values which count as false, values of other types."""
    kinds = [{}, {'w': 0, 'k1': ''}, {'w': None, 'k0': False, 'k2': (1, 2)}]
    return lambda i: dict(kinds[(i + shift) % 3])


def attrs_for(env, odd):
    return odd_attr(env.choose('attributes', range(3))) if odd else attr_of


def require_data(env, ref, iv, data, label):
    """data is what the reference has for the edge iv."""
    for x, p, d in ref.items:
        here = AND(p, EQ(x, iv))
        if here is False:
            continue
        for k, v, c in d:
            has = k in data
            if c is True:
                env.require(IMPLIES(here, has and EQ(data[k], v)), label + ': ' + k)
            else:
                env.require(IMPLIES(AND(here, c), has and EQ(data[k], v)), label + ': ' + k)
        for k in data:
            env.require(IMPLIES(here, OR([c for kk, v, c in d if kk == k])), label + ': extra ' + k)


def attributes(env, kind, topo, how, mode='none', style='sym', sort='int', odd=False, degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), style=style, attrs=attrs_for(env, odd), sort=sort,
                       degenerate=degenerate)
    B, E = window(env, mode)
    kw = wkw(B, E, None if interval_kind(kind) else (True, False))
    if mode == 'none':
        kw = {}
    if how.endswith('u'):
        kw['u'] = ns[0]
    kw2 = dict(kw)
    inw = (lambda x: ref.inwin(x, B, E)) if mode != 'none' else (lambda x: True)
    us = [ns[0]] if 'u' in kw else None
    if how.startswith('true'):
        got = list(G.edges(data=True, **kw))
        require_edges(env, ref, [r[0] for r in got], lambda x: AND(inw(x), ref.matches(x, us, None)), 'data=True')
        for iv, data in got:
            require_data(env, ref, iv, data, 'data')
        env.observe('data', [(iv, dict(d)) for iv, d in got])
    elif how.startswith('key'):
        key = env.choose('key', ['w', 'k0', 'k1', 'nokey'])
        dflt = env.choose('default', [None, 'dflt'])
        if dflt is not None:
            kw2['default'] = dflt
        got = list(G.edges(data=key, **kw2))
        require_edges(env, ref, [r[0] for r in got], lambda x: AND(inw(x), ref.matches(x, us, None)), 'data=key')
        for iv, val in got:
            for x, p, d in ref.items:
                here = AND(p, EQ(x, iv))
                has = OR([c for k, v, c in d if k == key])
                for k, v, c in d:
                    if k == key:
                        env.require(IMPLIES(AND(here, c), EQ(val, v)), 'value of the attribute')
                env.require(IMPLIES(AND(here, NOT(has)), EQ(val, dflt)), 'default of the attribute')
        env.observe('values', got)


def reattr(env, kind, topo='par2', style='sym', degenerate=False):
    """Adding an edge again updates its data, and only its data; removing and adding it again starts afresh."""
    G, ns, ref = build(env, kind, topology(topo), style=style, attrs=attr_of, degenerate=degenerate)
    j = env.choose('again', range(len(ref.items)))
    x = ref.items[j][0]
    if env.flag('removed'):
        do_op(env, kind, G, ns, ref, 'drop', 90, j)
    if env.flag('batch'):
        G.add_edges_from([x], w=77, z=5)
    else:
        G.add_edge(*x, w=77, z=5)
    ref.add(x, w=77, z=5)
    got = list(G.edges(data=True))
    require_edges(env, ref, [r[0] for r in got], lambda y: True, 'edges')
    for iv, data in got:
        require_data(env, ref, iv, data, 'data')
    env.observe('data', [(iv, dict(d)) for iv, d in got])


def node_attributes(env, kind, style='sym'):
    """add_node/add_nodes_from store and update attributes; adding edges keeps them; nodes(data=...) shows them."""
    G = new(kind, name='g')
    ns = make_nodes(env, 5, style)
    want = {}
    G.add_node(ns[0], color='red', size=1)
    want[0] = {'color': 'red', 'size': 1}
    if env.flag('again'):
        G.add_node(ns[0], size=2, shape='x')
        want[0].update(size=2, shape='x')
    if env.flag('many'):
        G.add_nodes_from([ns[1], (ns[0], {'size': 9}), (ns[2], {'color': 'blue'})], weight=4)
        want.setdefault(1, {}).update(weight=4)
        want[0].update(weight=4, size=9)
        want.setdefault(2, {}).update(weight=4, color='blue')
        G.add_nodes_from([ns[3], ns[4], ns[1]], taste='sour')
        want[3], want[4] = {'taste': 'sour'}, {'taste': 'sour'}
        want[1].update(taste='sour')
        j = env.choose('later', [1, 2, 3, 4])
        G.add_node(ns[j], size=-1)
        want[j].update(size=-1)
    ts = edge_times(env, kind, 0)
    G.add_edge(ns[0], ns[1], *ts)
    want.setdefault(1, {})
    win = env.flag('window')
    if env.flag('tuples'):            # only a pair of a node and a dict is not itself a node
        G.add_nodes_from([('a',), ('a', 'b'), ('a', 'b', 'c'), (('a', 1), {'taste': 'salt'})], size=3)
        if not win:
            ns = list(ns) + [('a',), ('a', 'b'), ('a', 'b', 'c'), ('a', 1)]
            for i in range(len(ns) - 4, len(ns)):
                want[i] = {'size': 3}
            want[len(ns) - 1]['taste'] = 'salt'
    if win:
        B, E = window(env, 'full')
        kw = wkw(B, E)
        ref = Ref(kind)
        inw = ref.inwin((ns[0], ns[1]) + ts, B, E)
        want = {k: v for k, v in want.items() if k in (0, 1)}
    else:
        kw, inw = {}, True
    got = list(G.nodes(data=True, **kw))
    require_set(env, [r[0] for r in got], [(ns[i], inw) for i in want], 'nodes')
    for n, d in got:
        for i in want:
            if ns[i] == n:
                env.require(dict(d) == want[i], 'node data')
    got = list(G.nodes(data='size', default=-1, **kw))
    for n, d in got:
        for i in want:
            if ns[i] == n:
                env.require(d == want[i].get('size', -1), 'node attribute with default')
    require_set(env, [r[0] for r in got], [(ns[i], inw) for i in want], 'nodes with an attribute')
    env.observe('nodes', [(n, d) for n, d in got])
    env.require(G.name == 'g' and str(G) == 'g', 'name')
    G.name = 'h'
    env.require(G.name == 'h' and str(G) == 'h' and G.graph['name'] == 'h', 'name given later')
    env.require(str(new(kind)) == new(kind).name, 'no name')
    env.cover('node attributes')


# ------------------------------------------------------------------------------------------------ snapshots

def check_static(env, kind, ref, g, inw, multigraph, edge_data, time_data, node_data, label, nodedata=None):
    """The networkx graph g holds exactly the edges in the window, with the data asked for."""
    nx = sys.modules['networkx']
    env.require(g.is_directed() == directed(kind), label + ': directedness')
    env.require(g.is_multigraph() == multigraph, label + ': multigraph')
    ge = list(g.edges(data=True))
    # edges, up to orientation when undirected
    def pair_ok(r, x):
        return ref.between(x, r[0], r[1])
    names = {'IG': ('begin', 'end'), 'IDG': ('begin', 'end'), 'PG': ('timestamp',), 'PDG': ('timestamp',)}[kind]
    pairs = []
    for x, p in ref.present():
        if not any(ref.between(x, y[0], y[1]) for y in pairs):
            pairs.append(x)
    for y in pairs:
        mine = [r for r in ge if ref.between(y, r[0], r[1])]
        c = [AND(p, inw(x)) for x, p in ref.present() if ref.between(x, y[0], y[1])]
        if multigraph:
            env.require(EQ(COUNT(c), len(mine)), label + ': number of edges of a pair')
        else:
            env.require(IFF(OR(c), len(mine) == 1), label + ': edge of a pair')
            env.require(len(mine) <= 1, label + ': pair twice')
    for r in ge:
        env.require(any(ref.between(y, r[0], r[1]) for y in pairs), label + ': unknown pair')
        ok = []
        for x, p, d in ref.items:
            if not ref.between(x, r[0], r[1]):
                continue
            c = AND(p, inw(x))
            if time_data:
                c = AND(c, [EQ(r[2].get(nm, '?'), tv) for nm, tv in zip(names, x[2:])])
            if edge_data:
                for k, v, cc in d:
                    c = AND(c, IMPLIES(cc, k in r[2] and EQ(r[2][k], v)))
            ok.append(c)
        env.require(OR(ok), label + ': edge data')
        for k in r[2]:                          # whatever it shows is that of an edge of this pair in the window
            if time_data and k in names:
                continue
            env.require(edge_data and OR([AND(p, inw(x), cc, EQ(v, r[2][k])) for x, p, d in ref.items
                                          if ref.between(x, r[0], r[1]) for kk, v, cc in d if kk == k]),
                        label + ': unasked or foreign edge data')
    if multigraph and (time_data or edge_data):
        for x, p, d in ref.items:
            cs = []
            for r in ge:
                if ref.between(x, r[0], r[1]):
                    c = True
                    if time_data:
                        c = AND(c, [EQ(r[2].get(nm, '?'), tv) for nm, tv in zip(names, x[2:])])
                    if edge_data:
                        c = AND(c, [IMPLIES(cc, k in r[2] and EQ(r[2][k], v)) for k, v, cc in d])
                    cs.append(c)
            env.require(IMPLIES(AND(p, inw(x)), OR(cs)), label + ': data of an edge is missing')
    allnodes = []
    for x, p in ref.present():
        for n in x[:2]:
            if not any(n == m for m in allnodes):
                allnodes.append(n)
    require_set(env, list(g.nodes()), [(n, OR([AND(p, ref.incident(x, n), inw(x)) for x, p in ref.present()]))
                                       for n in allnodes], label + ': nodes')
    for n, d in g.nodes(data=True):
        want = {}
        if node_data and nodedata is not None:
            for m, dd in nodedata:
                if m == n:
                    want = dd
        env.require(dict(d) == want, label + ': node data')


def static_obs(g):
    if g.is_directed():
        return sorted_nodes(g), [(u, v, dict(d)) for u, v, d in g.edges(data=True)]
    return sorted_nodes(g), [(frozenset([u, v]), dict(d)) for u, v, d in g.edges(data=True)]


def sorted_nodes(g):
    return list(g.nodes())


DATAFLAGS = [(m, e, t, n) for m in (False, True) for e in (False, True) for t in (False, True) for n in (False, True)]


def tname(kind):
    return 'edge_interval_data' if interval_kind(kind) else 'edge_timestamp_data'


def asked(kind, m, e, t, n):
    """The keywords which ask for this; what is not wanted is left out, or (if all but one is wanted) refused."""
    kw = {'multigraph': m, 'edge_data': e, tname(kind): t, 'node_data': n}
    return kw if m + e + t + n == 3 else {k: v for k, v in kw.items() if v}


def subgraph(env, kind, topo, mode='full', inc='any', flags='any', style='sym', alias=False, odd=False,
             degenerate=False):
    G, ns, ref = build(env, kind, topology(topo), style=style, attrs=attrs_for(env, odd), distinct=True,
                       degenerate=degenerate)
    G.add_node(ns[0], color='red')
    B, E = window(env, mode)
    passed, inc = inc_of(env, kind, inc)
    m, e, t, n = env.choose('flags', DATAFLAGS) if flags == 'any' else flags
    kw = asked(kind, m, e, t, n)
    if passed is not None:
        kw['inclusive'] = passed
    f = G.to_networkx_graph if alias else G.to_subgraph
    g = f(begin=B, end=E, **kw)
    env.observe('graph', static_obs(g))
    check_static(env, kind, ref, g, lambda x: ref.inwin(x, B, E, inc), m, e, t, n, 'subgraph', [(ns[0], {'color': 'red'})])
    env.cover('edges' if g.number_of_edges() else 'no edges')
    # the graph is unchanged
    require_edges(env, ref, G.edges(), lambda x: True, 'the graph itself afterwards', False)


def snapshots(env, kind, topo, by, k, flags=(False, False, False, False), sort='int', style='sym', retlen=False,
              odd=False, degenerate=False):
    """to_snapshots: consecutive windows of equal length over the whole interval; the last one includes the end."""
    G, ns, ref = build(env, kind, topology(topo), sort=sort, attrs=attrs_for(env, odd), distinct=True, style=style,
                       degenerate=degenerate)
    G.add_node(ns[0], color='red')
    lo, hi = true_extent(env, kind, ref)
    m, e, t, n = env.choose('flags', DATAFLAGS) if flags == 'any' else flags
    kw = asked(kind, m, e, t, n)
    env.assume(lo < hi)
    if by == 'number':
        if k & (k - 1):               # keep the division exact, so that floats and exact arithmetic agree
            q = env.num('len', 'int')
            env.assume(EQ(hi - lo, q * k))
        kw['number_of_snapshots'] = k
        length = (hi - lo) / k
        number = k
    else:
        length = k
        kw['length_of_snapshots'] = k
        env.assume(hi - lo > k)
        env.assume(hi - lo <= 4 * k)
        number = None
    if retlen:
        snaps, ln = G.to_snapshots(return_length=True, **kw)
        env.require(EQ(ln, length), 'returned length')
    else:
        snaps = G.to_snapshots(**kw)
    env.observe('snapshots', [static_obs(g) for g in snaps])
    cnt = len(snaps)
    if number is not None:
        env.require(cnt == number, 'number of snapshots')
    else:
        env.require(AND((hi - lo) <= cnt * length, (cnt - 1) * length < (hi - lo)), 'number of snapshots')
    for i, g in enumerate(snaps):
        a = lo + length * i
        b = lo + length * (i + 1)
        last = i == len(snaps) - 1
        if ref.iv:
            inw = (lambda x, a=a: OR(x[3] > a, EQ(x[2], a))) if last else (lambda x, a=a, b=b: ref.inwin(x, a, b))
        else:
            inw = (lambda x, a=a: x[2] >= a) if last else (lambda x, a=a, b=b: AND(x[2] >= a, x[2] < b))
        check_static(env, kind, ref, g, inw, m, e, t, n, 'snapshot', [(ns[0], {'color': 'red'})])
    env.cover('snapshots')


def true_extent(env, kind, ref):
    """(first begin, last end) of the reference as formulas."""
    last = 3 if ref.iv else 2
    lo, hi = ref.items[0][0][2], ref.items[0][0][last]
    for x, p, d in ref.items[1:]:
        lo = ITE(x[2] < lo, x[2], lo)
        hi = ITE(x[last] > hi, x[last], hi)
    return lo, hi


def snapshot_graph(env, kind, topo, flags=(False, False, False, False), sort='int', odd=False, order=None, last=None,
                   impulses=False):
    """to_snapshot_graph shows, at every time, exactly the edges active at that time.
    order, last: assume that the edges begin (end) in this order; impulses: intervals without length."""
    G, ns, ref = build(env, kind, topology(topo), sort=sort, attrs=attrs_for(env, odd), distinct=True, order=order,
                       last=last, degenerate='all' if impulses else False)
    G.add_node(ns[0], color='red')
    colored = [(ns[0], {'color': 'red'})]
    m, e, t, n = env.choose('flags', DATAFLAGS) if flags == 'any' else flags
    kw = asked(kind, m, e, t, n)
    S = G.to_snapshot_graph(**kw)
    items = list(S.snapshots.items())
    env.observe('snapshots', [(k, static_obs(g)) for k, g in items])
    T = env.num('T', sort)                       # any time
    if ref.iv and not impulses:
        inside = [AND(s <= T, T < en) for (s, en), g in items]
        active = lambda x: AND(x[2] <= T, T < x[3])
    else:
        inside = [EQ(s, T) for (s, en), g in items]
        active = lambda x: EQ(x[2], T)
    some = OR([AND(p, active(x)) for x, p in ref.present()])
    env.require(IMPLIES(some, OR(inside)), 'a time with edges is in no snapshot')
    env.require(COUNT(inside) <= 1, 'a time is in two snapshots')
    for ((s, en), g), c in zip(items, inside):
        if ref.iv and not impulses:
            env.require(s < en, 'an empty snapshot interval')
        else:
            env.require(EQ(s, en), 'an impulse snapshot with a length')
            env.require(g.number_of_edges() > 0, 'a snapshot without edges')
        pairs = [(r[0], r[1]) for r in g.edges()]
        for x, p in ref.present():
            act = OR([AND(q, active(y)) for y, q in ref.present() if ref.between(y, x[0], x[1])])
            env.require(IMPLIES(c, IFF(act, any(ref.between(x, u, v) for u, v in pairs))),
                        'edges of the snapshot at that time')
        env.require(g.is_directed() == directed(kind), 'directedness of a snapshot')
        # and the data in it
        if ref.iv and not impulses:
            check_static(env, kind, ref, g, lambda x, s=s, en=en: ref.inwin(x, s, en), m, e, t, n, 'snapshot', colored)
        else:
            check_static(env, kind, ref, g, lambda x, s=s: EQ(x[2], s), m, e, t, n, 'snapshot', colored)
    for (a, _), (b, _) in zip(items, items[1:]):
        env.require(a[0] < b[0], 'snapshots are not in order of time')
    env.cover('snapshot graph')


# ------------------------------------------------------------------------------------------------ conversions in

OTHER = ('b', 'e', 'n', 'd', 'i', 'en', 'be', 'gin', 'time', 'stamp', 'nd', 'beginning', 'ends', 'timestamps', 'Begin',
         'begin end', 'sin', 'since ', 'until then')


def from_networkx(env, kind, topo, multi=False, custom=False, others=False, degenerate=False):
    nx = sys.modules['networkx']
    ns = make_nodes(env, max([3] + [max(p) for p in topology(topo)]) + 1)
    times = times_of(env, kind, topology(topo), degenerate=degenerate)
    ref = Ref(kind)
    if directed(kind):
        g = nx.MultiDiGraph() if multi else nx.DiGraph()
    else:
        g = nx.MultiGraph() if multi else nx.Graph()
    iv = interval_kind(kind)
    nb, ne = ('since', 'until') if custom else ('begin', 'end')
    nt = 'when' if custom else 'timestamp'
    more = {k: n for n, k in enumerate(OTHER)} if others else {}
    for i, (a, b) in enumerate(topology(topo)):
        ts = times(i)
        x = (ns[a], ns[b]) + ts
        for y, p in ref.present():
            if not iv or not directed(kind):
                env.assume(NOT(AND(ref.between(y, ns[a], ns[b]), EQ(y[2:], ts))))
        d = {nb: ts[0], ne: ts[1]} if iv else {nt: ts[0]}
        d.update(attr_of(i))
        d.update(more)
        if i % 2:
            d['start'] = 3
        g.add_edge(ns[a], ns[b], **d)
        dd = dict(attr_of(i), **more)
        if i % 2:
            dd['start'] = 3
        if not directed(kind) and a > b:
            x = (x[1], x[0]) + ts
        ref.add(x, **dd)
    if custom:
        args = {'begin': nb, 'end': ne} if iv else {'timestamp': nt}
    else:
        args = {}
    cls = type(new(kind))
    if env.symbolic:
        cls = new(kind).__class__
    G = cls.from_networkx_graph(g, **args)
    env.require(isinstance(G, cls), 'class of the result')
    def turned(r):
        # networkx may turn an undirected edge round: compare with the ends in the order of ns
        if not directed(kind):
            i, j = [next((i for i, n in enumerate(ns) if n == m), -1) for m in r[:2]]
            if i > j:
                r = (r[1], r[0]) + tuple(r[2:])
        return r

    ivs = [(turned(r), d) for r, d in G.edges(data=True)]
    require_edges(env, ref, [r for r, d in ivs], lambda x: True, 'edges', True)
    for r, d in ivs:
        require_data(env, ref, r, d, 'data')
    env.observe('edges', [(r, dict(d)) for r, d in ivs])
    B, E = window(env, 'full', prefix='q')
    gw = [turned(r) for r in G.edges(begin=B, end=E)]
    require_edges(env, ref, gw, lambda x: ref.inwin(x, B, E), 'edges by window')


def from_snapshots(env, kind, k, pairs=((0, 1), (1, 2)), fixed=True):
    """from_snapshot_graph: the i-th snapshot covers [begin + i * period, begin + (i + 1) * period)."""
    ns = make_nodes(env, 3)
    skind = 'SDG' if directed(kind) else 'SG'
    S = new(skind)
    pres = []
    for i in range(k):
        es = []
        row = []
        for j, (a, b) in enumerate(pairs):
            here = env.flag('in%d_%d' % (i, j))
            row.append(here)
            if here:
                es.append((ns[a], ns[b]))
        pres.append(row)
        S.add_snapshot(es, start=i, end=i + 1)
    begin, period = env.num('begin'), env.num('period')
    env.assume(period > 0)
    cls = new(kind).__class__
    G = cls.from_snapshot_graph(S, begin, period)
    env.require(isinstance(G, cls), 'class of the result')
    got = list(G.edges())
    env.observe('edges', got)
    T = env.num('T')
    for j, (a, b) in enumerate(pairs):
        want = OR([AND(pres[i][j], begin + period * i <= T, T < begin + period * (i + 1)) for i in range(k)])
        mine = [r for r in got if (r[0] == ns[a] and r[1] == ns[b]) or
                (not directed(kind) and r[0] == ns[b] and r[1] == ns[a])]
        act = [AND(r[2] <= T, T < r[3]) for r in mine]
        env.require(IFF(want, OR(act)), 'activity of an edge at a time')
        env.require(COUNT(act) <= 1, 'an edge twice at a time')
    env.require(len([1 for r in got]) == sum(1 for r in got if any(
        (r[0] == ns[a] and r[1] == ns[b]) or (not directed(kind) and r[0] == ns[b] and r[1] == ns[a])
        for a, b in pairs)), 'an edge from nowhere')
    env.cover('edges' if got else 'no edges')


# ------------------------------------------------------------------------------------------------ predictive model

class StubModel(object):
    """Stands for LinearRegression: it may predict anything."""
    predictions = None

    def __init__(self, *a, **k):
        pass

    def fit(self, X, y=None, *a, **k):
        return self

    def predict(self, X):
        return [StubModel.predictions]


def give_model(env, G, predictions):
    mods = [m for n, m in list(sys.modules.items()) if n.startswith('dynetworkx') and m is not None
            and 'LinearRegression' in m.__dict__]
    old = [(m, m.__dict__['LinearRegression']) for m in mods]
    StubModel.predictions = predictions
    for m in mods:
        m.LinearRegression = StubModel
    try:
        G.generate_predictive_model(training_size=0)
    finally:
        for m, c in old:
            m.LinearRegression = c


def model_neutral(env, kind, topo, form, mode='full', inc='any', style='sym', data=False, degenerate=False):
    """With a predictive model, whatever it predicts, a query gives the same edges as without one."""
    G, ns, ref = build(env, kind, topology(topo), style=style, extra=1, attrs=attr_of, distinct=True,
                       degenerate=degenerate)
    B, E = window(env, mode)
    passed, inc = inc_of(env, kind, inc)
    kw = wkw(B, E, passed)
    us = vs = None
    m = len(ns)
    if form in ('u', 'uv'):
        u = ns[env.choose('u', range(m))]
        kw['u'], us = u, [u]
    if form in ('v', 'uv'):
        v = ns[env.choose('v', range(m))]
        kw['v'], vs = v, [v]
    if form in ('ul', 'ul_vl'):
        us = [n for i, n in enumerate(ns) if env.flag('inu%d' % i)]
        kw['u'] = list(us)
    if form in ('vl', 'ul_vl'):
        vs = [n for i, n in enumerate(ns) if env.flag('inv%d' % i)]
        kw['v'] = list(vs)
    if data:
        kw['data'] = True
    give_model(env, G, env.choose('faster', [(0, 1), (1, 0), (1, 1)]))
    got = list(G.edges(**kw))
    if data:
        for iv, d in got:
            require_data(env, ref, iv, d, 'data')
        got = [r[0] for r in got]
    env.observe('edges', got)
    require_edges(env, ref, got, lambda x: AND(ref.matches(x, us, vs), ref.inwin(x, B, E, inc)), 'edges with a model')


# ------------------------------------------------------------------------------------------------ batches

def batch(env, kind, topo, style='sym', attr=True, degenerate=False):
    """add_edges_from(edges, **attr) is add_edge of each of them with attr."""
    G = new(kind)
    k = max(max(p) for p in topology(topo)) + 1
    ns = make_nodes(env, k + 1, style)
    ref = Ref(kind)
    xs = []
    times = times_of(env, kind, topology(topo), degenerate=degenerate)
    for i, (a, b) in enumerate(topology(topo)):
        x = (ns[a], ns[b]) + times(i)
        if not directed(kind):
            for y in xs:
                if y[0] == x[1] and y[1] == x[0] and a != b:
                    env.assume(NOT(EQ(x[2:], y[2:])))
        xs.append(x)
    at = {'w': 5, 'c': 'red'} if attr else {}
    known = env.choose('known', [None] + list(range(min(len(xs), 4))))
    if known is not None:                      # one of them is there already, with other data
        G.add_edge(*xs[known], w=1, old=2)
        ref.add(xs[known], w=1, old=2)
    how = env.choose('how', ['list', 'tuple', 'generator'])
    arg = xs if how == 'list' else tuple(xs) if how == 'tuple' else (x for x in xs)
    G.add_edges_from(arg, **at)
    for x in xs:
        ref.add(x, **at)
    got = list(G.edges(data=True))
    env.observe('edges', [(iv, dict(d)) for iv, d in got])
    require_edges(env, ref, [r[0] for r in got], lambda x: True, 'edges of the batch')
    for iv, d in got:
        require_data(env, ref, iv, d, 'data of the batch')
    B, E = window(env, 'full')
    require_edges(env, ref, G.edges(begin=B, end=E), lambda x: ref.inwin(x, B, E), 'edges of the batch, by window')
    check_nodes(env, G, ns, ref, 'batch')
    later = env.choose('later', [None, 0, len(xs) - 1]) if known is None else None
    if later is not None:                      # one of them changes afterwards, the others do not
        G.add_edge(*xs[later], w=7, new=3)
        ref.add(xs[later], w=7, new=3)
        got = list(G.edges(data=True))
        require_edges(env, ref, [r[0] for r in got], lambda x: True, 'edges after a change of one of the batch')
        for iv, d in got:
            require_data(env, ref, iv, d, 'data after a change of one of the batch')


# ------------------------------------------------------------------------------------------------ nothing is changed

def snapshot_calls(kind, B, E):
    iv = interval_kind(kind)
    c = {'networkx': lambda G, ns: G.to_networkx_graph(begin=B, end=E),
         'subgraph': lambda G, ns: G.to_subgraph(begin=B, end=E, multigraph=True, edge_data=True, node_data=True),
         'two': lambda G, ns: G.to_snapshots(number_of_snapshots=2, edge_data=True),
         'snapshot graph': lambda G, ns: G.to_snapshot_graph(edge_data=True, node_data=True),
         'edges': lambda G, ns: list(G.edges(begin=B, end=E, data=True)),
         'edges u': lambda G, ns: list(G.edges(u=ns[0], begin=B, end=E)),
         'edges ul': lambda G, ns: list(G.edges(u=[ns[0], ns[-1]], v=ns[1], begin=B, end=E)),
         'stranger': lambda G, ns: list(G.edges(u=ns[-1], v=ns[0])) + list(G.edges(v=ns[-1])),
         'has_edge': lambda G, ns: (G.has_edge(ns[0], ns[-1]), G.has_edge(ns[0], ns[1], begin=B, end=E)),
         'nodes': lambda G, ns: (list(G.nodes(begin=B, end=E, data='w')), G.has_node(ns[-1], begin=B, end=E),
                                 G.has_node(ns[-1]), G.number_of_nodes(begin=B, end=E), len(G), ns[-1] in G),
         'degree': lambda G, ns: (G.degree(ns[0], begin=B, end=E), list(G.degree(ns[0], delta=True))),
         'mean': lambda G, ns: G.degree(),
         'interval': lambda G, ns: G.interval(),
         'model': lambda G, ns: give_model(None, G, (0, 1))}
    if iv:
        c['stamps'] = lambda G, ns: (list(G.unique_timestamps(B, E)), list(G.unique_begin_timestamps(B, E)),
                                     list(G.unique_end_timestamps(B, E)))
    if directed(kind):
        c['in'] = lambda G, ns: (G.in_degree(ns[0], begin=B, end=E), G.out_degree(ns[0], begin=B, end=E),
                                 G.in_degree(), G.out_degree())
    return c


def readonly(env, kind, topo, call, twice=False, degenerate=False):
    """A question changes nothing: the edges, nodes and data afterwards are those from before."""
    G, ns, ref = build(env, kind, topology(topo), attrs=attr_of, extra=2, distinct=True, degenerate=degenerate)
    G.add_node(ns[-2], w='iso')
    ref.add_node(ns[-2])
    B, E = window(env, 'full')
    lo, hi = true_extent(env, kind, ref)
    env.assume(lo < hi)
    env.assume(B < E)
    f = snapshot_calls(kind, B, E)[call]
    f(G, ns)
    if twice:
        f(G, ns)
    got = list(G.edges(data=True))
    env.observe('edges', [(iv, dict(d)) for iv, d in got])
    require_edges(env, ref, [r[0] for r in got], lambda x: True, 'edges afterwards')
    for iv, d in got:
        require_data(env, ref, iv, d, 'data afterwards')
    check_nodes(env, G, ns, ref, 'afterwards')
    for n, d in G.nodes(data=True):
        env.require(dict(d) == ({'w': 'iso'} if n == ns[-2] else {}), 'node data afterwards')
    check_interval(env, kind, G, ref, 'interval afterwards')
    qB, qE = window(env, 'full', prefix='q')
    require_edges(env, ref, G.edges(begin=qB, end=qE), lambda x: ref.inwin(x, qB, qE), 'window afterwards', False)


# ------------------------------------------------------------------------------------------------ refusals

def refusals(env, kind):
    """A request without a meaning is refused with an error and changes nothing."""
    nx = sys.modules['networkx']
    iv = interval_kind(kind)
    G, ns, ref = build(env, kind, TOPOS['two'], attrs=attr_of, extra=1)
    B, E = env.num('B'), env.num('E')
    env.assume(B > E)
    calls = {
        'edges': lambda: list(G.edges(begin=B, end=E)),
        'edges u': lambda: list(G.edges(u=ns[0], begin=B, end=E)),
        'edges uv': lambda: list(G.edges(u=ns[0], v=ns[1], begin=B, end=E)),
        'edges ul': lambda: list(G.edges(u=[ns[0], ns[1]], begin=B, end=E)),
        'has_edge': lambda: G.has_edge(ns[0], ns[1], begin=B, end=E),
        'short': lambda: G.add_edges_from([(ns[0], ns[1])]),
        'long': lambda: G.add_edges_from([(ns[0], ns[1], B, B + 1, B + 2)]),
        'none': lambda: G.to_snapshots(),
        'both': lambda: G.to_snapshots(number_of_snapshots=2, length_of_snapshots=1),
        'one': lambda: G.to_snapshots(number_of_snapshots=1),
        'negative': lambda: G.to_snapshots(length_of_snapshots=-1),
        'zero length': lambda: G.to_snapshots(length_of_snapshots=0),
        'zero': lambda: G.to_snapshots(number_of_snapshots=0),
        'less than zero': lambda: G.to_snapshots(number_of_snapshots=-2),
        'degree': lambda: G.degree(ns[0], begin=B, end=E),
        'degree changes': lambda: G.degree(ns[0], begin=B, end=E, delta=True),
        'edges v': lambda: list(G.edges(v=ns[1], begin=B, end=E)),
        'edges vl': lambda: list(G.edges(v=[ns[0], ns[1]], begin=B, end=E)),
        'edges data': lambda: list(G.edges(begin=B, end=E, data=True)),
        'fraction': lambda: G.to_snapshots(number_of_snapshots=2.5),
        'save': lambda: G.save_to_txt('/nonexistent/x', delimiter='='),
        'load': lambda: type(G).load_from_txt('/nonexistent/x', delimiter='='),
        'order': lambda: type(G).load_from_txt('/nonexistent/x', order=('u', 'v')),
        'empty': lambda: new(kind).save_to_txt('/nonexistent/x'),
    }
    when = ('begin', 'end') if iv else ('t',)
    for od in (('u', 'u') + when, ('v', 'v') + when, ('u', 'v', 'v', 'u')[:2 + len(when)], ('u', 'v') + when + ('x',)):
        calls['order ' + ' '.join(od)] = lambda od=od: type(G).load_from_txt('/nonexistent/x', order=od)
    if directed(kind):
        calls['in_degree'] = lambda: G.in_degree(ns[0], begin=B, end=E)
        calls['out_degree'] = lambda: G.out_degree(ns[0], begin=B, end=E)
    if kind != 'IG':
        calls['subgraph'] = lambda: G.to_subgraph(B, E)
        calls['multi subgraph'] = lambda: G.to_subgraph(B, E, multigraph=True)
        calls['networkx'] = lambda: G.to_networkx_graph(B, E)
    if not iv:
        calls['has_node'] = lambda: G.has_node(ns[0], begin=B, end=E)
        calls['nodes'] = lambda: list(G.nodes(begin=B, end=E))
        calls['remove_node'] = lambda: G.remove_node(ns[0], begin=B, end=E)
    if iv:
        calls['remove_edge'] = lambda: G.remove_edge(ns[0], ns[1], begin=B, end=E)
        calls['no end, has'] = lambda: G.has_edge(ns[0], ns[1], end=B, overlapping=False)
        calls['no begin, remove'] = lambda: G.remove_edge(ns[0], ns[1], begin=B, overlapping=False)
        calls['no end'] = lambda: G.has_edge(ns[0], ns[1], begin=B, overlapping=False)
        calls['reversed'] = lambda: G.add_edge(ns[0], ns[2], B, E, w=1)
        calls['reversed known'] = lambda: G.add_edge(ns[0], ns[1], B, E)
        calls['reversed batch'] = lambda: G.add_edges_from([(ns[2], ns[-1], B, E)], w=1)
        calls['reversed, new'] = lambda: G.add_edge(ns[-1], 'other', B, E)
        calls['no begin'] = lambda: G.remove_edge(ns[0], ns[1], end=B, overlapping=False)
    names = sorted(calls)
    what = env.choose('call', names)
    err = ValueError if what.split()[0] in ('save', 'load', 'order', 'empty') else nx.NetworkXError
    try:
        calls[what]()
    except err:
        env.cover('refused')
    else:
        env.require(False, 'not refused: ' + what)
    require_edges(env, ref, G.edges(), lambda x: True, 'edges after a refused request', False)
    for iv_, d in G.edges(data=True):
        require_data(env, ref, iv_, d, 'data after a refused request')
    check_nodes(env, G, ns, ref, 'after a refused request')


# ------------------------------------------------------------------------------------------------ independence

def spoil(nx_graph):
    """Change everything in a static graph."""
    for e in list(nx_graph.edges(data=True)):
        e[2]['w'] = 'spoilt'
        e[2]['spoilt'] = True
    for n, d in list(nx_graph.nodes(data=True)):
        d['color'] = 'spoilt'
    nx_graph.add_edge('s1', 's2', w='spoilt')
    nodes = list(nx_graph.nodes())
    if nodes[0] != 's1':
        nx_graph.remove_node(nodes[0])
    nx_graph.graph['name'] = 'spoilt'


def frozen(g):
    """What a static graph shows, copied."""
    return (sorted(((repr(n), dict(d)) for n, d in g.nodes(data=True)), key=lambda x: x[0]),
            [(u, v, dict(d)) for u, v, d in g.edges(data=True)], dict(g.graph))


def static_results(G, kind, how, B, E):
    data = {'edge_data': True, 'node_data': True}
    if how == 'simple':
        return [G.to_subgraph(begin=B, end=E, **data)]
    if how == 'multi':
        return [G.to_subgraph(begin=B, end=E, multigraph=True, **data)]
    if how == 'networkx':
        return [G.to_networkx_graph(begin=B, end=E, **data)]
    if how == 'snapshots':
        return list(G.to_snapshots(number_of_snapshots=2, **data))
    if how == 'snapshots multi':
        return list(G.to_snapshots(length_of_snapshots=2, multigraph=True, **data))
    return list(G.to_snapshot_graph(**data))


INDEPENDENT = ('simple', 'multi', 'networkx', 'snapshots', 'snapshots multi', 'snapshot graph')


def unchanged(env, kind, G, ns, ref, label, nodedata):
    got = list(G.edges(data=True))
    require_edges(env, ref, [r[0] for r in got], lambda x: True, 'edges ' + label)
    for iv, d in got:
        require_data(env, ref, iv, d, 'data ' + label)
    check_nodes(env, G, ns, ref, label)
    for n, d in G.nodes(data=True):
        env.require(dict(d) == (nodedata if n == ns[0] else {}), 'node data ' + label)
    env.observe('edges', [(iv, dict(d)) for iv, d in got])


def independent(env, kind, topo, how, turn):
    """Static graphs made from a graph are its own copies: changing them (or a fellow) does not change the graph (or
    the others), and changing the graph does not change them."""
    G, ns, ref = build(env, kind, topology(topo), attrs=attr_of, distinct=True)
    G.add_node(ns[0], color='red')
    B, E = window(env, 'full')
    lo, hi = true_extent(env, kind, ref)
    env.assume(lo < hi)
    env.assume(hi - lo > 2)
    env.assume(hi - lo <= 6)
    res = static_results(G, kind, how, B, E)
    before = [frozen(g) for g in res]
    if turn == 'result':
        if not res:
            return
        again = static_results(G, kind, how, B, E)
        j = env.choose('which', range(min(len(res), 6)))
        spoil(res[j])
        unchanged(env, kind, G, ns, ref, 'after changing the result', {'color': 'red'})
        rest = [(g, old) for i, (g, old) in enumerate(zip(res, before)) if i != j] + list(zip(again, before))
        env.require([frozen(g) for g in static_results(G, kind, how, B, E)] == before,
                    'asking again gives something else after a result was changed')
    else:
        x = ref.items[0][0]
        G.add_edge(*x, w='new', extra=1)
        G.add_node(ns[0], color='new', extra=1)
        G.remove_node(ns[1])
        rest = list(zip(res, before))
    for g, old in rest:
        env.require(frozen(g) == old, 'a static graph changed with another')
    env.cover('independent')


def independent_source(env, kind, turn, multi=False):
    """A graph made from a static graph is a copy of it: neither changes with the other."""
    nx = sys.modules['networkx']
    ns = make_nodes(env, 3)
    ref = Ref(kind)
    g = ((nx.MultiDiGraph if multi else nx.DiGraph) if directed(kind) else (nx.MultiGraph if multi else nx.Graph))()
    iv = interval_kind(kind)
    for i, (a, b) in enumerate([(0, 1), (1, 2)]):
        ts = edge_times(env, kind, i)
        g.add_edge(ns[a], ns[b], **dict(zip(('begin', 'end') if iv else ('timestamp',), ts)), **attr_of(i))
        ref.add((ns[a], ns[b]) + ts, **attr_of(i))
    before = frozen(g)
    G = new(kind).__class__.from_networkx_graph(g)

    def turned(r):
        i, j = [next((i for i, n in enumerate(ns) if n == m), -1) for m in r[:2]]
        return r if directed(kind) or i <= j else (r[1], r[0]) + tuple(r[2:])

    env.require(frozen(g) == before, 'the source changed by the conversion')
    if turn == 'result':
        G.add_edge(*list(G.edges())[0], w='new', extra=1)
        G.add_node(ns[0], color='new')
        G.remove_node(ns[1])
        env.require(frozen(g) == before, 'the source changed with the result')
    else:
        spoil(g)
        got = [(turned(r), d) for r, d in G.edges(data=True)]
        require_edges(env, ref, [r for r, d in got], lambda x: True, 'edges after changing the source')
        for r, d in got:
            require_data(env, ref, r, d, 'data after changing the source')
        check_nodes(env, G, ns, ref, 'after changing the source')
    env.cover('independent')
