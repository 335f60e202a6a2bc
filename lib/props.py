"""The properties, and the tasks (harness + parameters) which decide each of them, per tier.

A task is one bounded universally quantified claim: its parameters fix the shape (how many edges between which nodes,
which operations, which arguments are given), everything else (times, window bounds, node labels, attribute values
where named, inclusive flags, indexes) is symbolic."""

import itertools

ALL4 = ('IG', 'IDG', 'PG', 'PDG')
IV = ('IG', 'IDG')
IM = ('PG', 'PDG')
SN = ('SG', 'SDG')

ORD5 = [2, 0, 4, 1, 3]
ORD6 = [3, 1, 4, 0, 2, 5]
ORD7 = [3, 1, 5, 0, 2, 4, 6]
UP6 = [0, 1, 2, 3, 4, 5]
DOWN6 = [5, 4, 3, 2, 1, 0]
ZIG6 = [0, 5, 1, 4, 2, 3]


class P(object):
    def __init__(self, id, title, statement, over, text, why, files, mech, quick, thorough, cover=(), state=None,
                 observe=None, bounds='', assume=()):
        self.id, self.title, self.statement, self.over, self.text, self.why = id, title, statement, over, text, why
        self.files, self.mech, self.quick, self.thorough, self.cover = files, mech, quick, thorough, cover
        self.state, self.observe, self.bounds, self.assume = state, observe, bounds, list(assume)

    def tasks(self, tier):
        out = list(self.quick())
        if tier == 'thorough':
            seen = set(map(repr, out))
            for t in self.thorough():
                if repr(t) not in seen:
                    seen.add(repr(t))
                    out.append(t)
        return out


def T(h, cost=1, **p):
    return {'h': h, 'p': p, 'cost': cost}


def g(name, kinds, cost=1, **p):
    for k in kinds:
        yield T('h_graph.' + name, cost, kind=k, **p)


def cat(*its):
    for it in its:
        for t in it:
            yield t


def orders(n):
    return [list(o) for o in itertools.permutations(range(n))]


def weak_orders(n):
    """All orders of n edges in time in which at least two begin at the same time."""
    out = []
    for o in itertools.product(range(n), repeat=n):
        if len(set(o)) < n and sorted(set(o)) == list(range(len(set(o)))):
            out.append(list(o))
    return out


INFINITE = ('inf', 'lowinf', 'highinf')
MODES = ('full', 'begin', 'end', 'point', 'none')
C = 'dynetworkx/classes/'
IVF = [C + 'intervalgraph.py', C + 'intervaldigraph.py', C + 'intervaltree.py']
IMF = [C + 'impulsegraph.py', C + 'impulsedigraph.py']
SNF = [C + 'snapshotgraph.py', C + 'snapshotdigraph.py']

A_TIMES = ('times are integers or reals in exact arithmetic (Python ints are unbounded; floats are covered where the '
           'operations on them are comparisons, which are exact)')
A_NODES = 'node labels are arbitrary distinct integers, or the given strings or tuples where the task says so'
A_BEGIN = ('edges have begin < end unless the task says that they may have length zero, and windows begin <= end (X03 has '
           'the others)')
A_ORIENT = ('an undirected edge is not also added the other way round with the same times (the library keeps both, '
            'which its documentation does not define)')
A_HASH = 'hash-based containers are correct; their iteration order for numbers is one fixed order'

props = []


def add(*a, **k):
    props.append(P(*a, **k))


# ==================================================================================================== interval graphs

def quick():
    for m in MODES:
        yield from g('edges_window', IV, topo='two', mode=m)
    yield from g('edges_window', IV, 2, topo='tri')
    yield from g('edges_window', IV, 2, topo='par3')
    yield from g('edges_window', IV, 2, topo='rev3')
    yield from g('edges_window', IV, 3, topo='two', degenerate=True)
    yield from g('edges_window', IV, topo='two', sort='real')
    yield from g('edges_window', IV, 5, topo=6, order=ORD6)
    yield from g('edges_window', IV, 5, topo=6, order=ZIG6)
    yield from g('edges_window', IV, 5, topo=6, order=UP6)
    yield from g('edges_window', IV, 5, topo=6, order=DOWN6)
    for i, o in enumerate(orders(5)):
        yield from g('edges_window', ('IG',) if i % 10 else IV, 1, topo=5, order=o)
    for i, o in enumerate(weak_orders(4)):
        yield from g('edges_window', ('IG',) if i % 10 else IV, 1, topo=4, order=o)
    for m in INFINITE:
        yield from g('edges_window', IV, topo='two', mode=m)
    for m in ('begin', 'end', 'point', 'none'):
        yield from g('edges_window', IV, 1, topo='two', mode=m, degenerate='all')
    for t in ('wide8a', 'wide12a'):
        yield from g('edges_window', IV, 3, topo=t)
    yield from g('edges_window', IV, 2, topo='wide8b', mode='begin')
    yield from g('edges_window', IV, 2, topo='wide8c', mode='end')
    for m, t in (('begin', 'wide20b'), ('end', 'wide20c')):
        yield from g('edges_window', IV, 3, topo=t, mode=m)


def thorough():
    for t in ('tri', 'par3', 'mix3', 'rev3', 'loop3', 'star3'):
        for m in MODES:
            yield from g('edges_window', IV, 3, topo=t, mode=m)
    yield from g('edges_window', IV, 3, topo='tri', sort='real')
    yield from g('edges_window', IV, 9, topo='path4')
    yield from g('edges_window', IV, 9, topo='mix4')
    for o in (ORD7, [0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [0, 6, 1, 5, 2, 4, 3], [3, 4, 2, 5, 1, 6, 0]):
        yield from g('edges_window', IV, 8, topo=7, order=o)
    for m in ('begin', 'end', 'point'):
        yield from g('edges_window', IV, 6, topo=6, order=ORD6, mode=m)
    yield from g('edges_window', IV, 9, topo=8, order=[4, 2, 6, 1, 3, 5, 7, 0])
    for i, o in enumerate(orders(6)):
        yield from g('edges_window', ('IG',) if i % 20 else IV, 3, topo=6, order=o)
    yield from g('edges_window', IV, 9, topo=8, order=[7, 0, 6, 1, 5, 2, 4, 3])
    for i, o in enumerate(weak_orders(5)):
        if i % 4 == 0:
            yield from g('edges_window', ('IG',) if i % 20 else IV, 4, topo=5, order=o)
    for t in ('wide8c', 'wide8d', 'wide10b', 'wide12c', 'wide16d', 'wide20a', 'wide20e'):
        yield from g('edges_window', IV, 8, topo=t)
    for m in ('begin', 'end', 'one'):
        for t in ('wide16a', 'wide20b'):
            yield from g('edges_window', IV, 5, topo=t, mode=m)
    for m, t in (('begin', 'wide40a'), ('end', 'wide40b'), ('begin', 'wide40c')):
        yield from g('edges_window', IV, 7, topo=t, mode=m)


add('I01', 'Interval window queries are exact',
    'Asking an interval graph, directed or not, for the edges of a time window gives exactly the edges which are '
    'active in it: those which begin before its end and end after its begin, and those which begin exactly at its '
    'begin. A bound which is left out does not restrict. No edge is missing, none is given twice, and nothing else '
    'is given, for every set of intervals and every order in which they were added.',
    ['inputs'], 'all edge intervals, all window bounds, all insertion orders up to the stated number of edges',
    'The answer depends on the relative order of all interval ends and the window, through a self-balancing search '
    'tree with per-subtree maxima; the tests query a few fixed graphs.',
    IVF, [('window search in the interval index', 'intervaltree.py: query, inInterval, slice'),
          ('index maintenance', 'intervaltree.py: add, insert, leftRotate, rightRotate, updateMax'),
          ('edge query', 'intervalgraph.py: edges; intervaldigraph.py: edges')],
    quick, thorough, ('edges in the window some', 'edges in the window not all'),
    bounds='up to 3 edges at arbitrary times, 2 with edges of length zero (thorough: 4); 4 edges in any order with any ties of their begins; 5 '
           '(thorough: 6) edges which begin at different times, added in any order; and up to 6 (thorough: 8) edges added in one of several given orders'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary')


def quick():
    full = dict(full=True, nodes=True, interval=True)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('cut', (0, 1)), ('readd', 0)], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('drop', 0), ('readd', 0)], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 0)), ('dropall', (0, 1)), ('add', (0, 1))], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 0)), ('add', (0, 1)), ('cut', (0, 0))], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('cutfrom', (1, 0)), ('add', (2, 1))], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('readd', 0), ('add', (1, 0)), ('drop', 1), ('drop', 0)],
                 **full)
    yield from g('big_history', IV, 6, order=ORD5)
    yield from g('big_history', IV, 6, order=[0, 1, 2, 3, 4])
    yield from g('big_history', IV, 6, order=[4, 3, 2, 1, 0])
    yield from g('big_history', IV, 6, order=ORD6, drops=2, which=[0, 1])
    for o in orders(4):
        yield from g('big_history', IV, 2, order=o)
    for o in weak_orders(3):
        yield from g('big_history', IV, 2, order=o, full=True)
    for i, o in enumerate(weak_orders(4)):
        if i % 3 == 0:
            yield from g('big_history', ('IG',) if i % 9 else IV, 4, order=o)
    nowin = dict(nodes=True, full=True, interval=True, window_too=False)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('add', (0, 1)), ('cut', (0, 1))], **nowin)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('cut', (0, 1)), ('readd', 0)],
                 degenerate=True, **nowin)
    for op in (('cutfrom', (0, 1)), ('cutto', (0, 1)), ('exact', (0, 1)), ('exact', (1, 0))):
        yield from g('history', IV, 1, ops=[('add', (0, 1)), ('add', (0, 1)), op], **nowin)
        yield from g('history', IV, 1, ops=[('add', (0, 1)), ('add', (1, 0)), op, ('readd', 0)], **nowin)
    for op in (('cut', (0, 2)), ('dropall', (2, 0)), ('exact', (0, 2))):
        yield from g('history', IV, 1, ops=[('add', (0, 1)), op], **nowin)
    yield from g('wide_history', IV, 2, topo='wide10a', ops=[('drop', ['any', [i, 5 + i]]) for i in range(4)])
    yield from g('wide_history', IV, 3, topo='wide6b', ops=[('cut', (0, 1))])
    yield from g('wide_history', IV, 3, topo='wide8c', ops=[('cutfrom', ['any', [(0, 1), (1, 0)]])])
    for o in ('cut', 'cutfrom', 'cutto', 'dropall'):
        yield from g('history', IV, 2, ops=[('add', (0, 1)), ('add', (0, 1)), (o, (0, 1))], reals=True)
    yield from g('wide_history', IV, 2, topo='wide8a', ops=[('drop', ['any', [0, 3, 6]])], reals=True)


def thorough():
    full = dict(full=True, nodes=True, interval=True)
    P3 = ['any', [(0, 1), (1, 0), (1, 2)]]
    yield from g('history', IV, 7, ops=[('add', (0, 1)), ('add', P3), ('cut', P3), ('add', P3)], **full)
    yield from g('history', IV, 7, ops=[('add', (0, 1)), ('add', (0, 1)), ('add', (0, 1)), ('cut', (0, 1))], **full)
    yield from g('history', IV, 6, ops=[('add', (0, 1)), ('add', P3), ('drop', ['any', [0, 1]]),
                                        ('readd', ['any', [0, 1]]), ('drop', ['any', [0, 1]])], **full)
    yield from g('history', IV, 6, ops=[('add', (0, 1)), ('cut', (0, 1)), ('add', (0, 1)), ('cut', (0, 1))], **full)
    yield from g('history', IV, 6, ops=[('add', (0, 1)), ('add', (0, 1)), ('readd', 0), ('dropall', (0, 1)),
                                        ('readd', 1), ('add', (1, 2))], **full)
    for o in (ORD6, UP6, DOWN6, ZIG6):
        yield from g('big_history', IV, 9, order=o)
    for o in (ORD7, [0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [0, 6, 1, 5, 2, 4, 3]):
        for w in ([0, 1], [3, 2], [6, 0]):
            yield from g('big_history', IV, 8, order=o, drops=2, which=w)
    yield from g('big_history', IV, 9, order=ORD7, drops=3, which=[0, 1, 2])
    yield from g('big_history', IV, 9, order=UP6, drops=4, which=[0, 1, 2, 3])
    yield from g('big_history', IV, 9, order=UP6, drops=3, which=[3, 4, 5])
    for o in orders(4):
        yield from g('big_history', IV, 4, order=o, drops=2)
        yield from g('big_history', IV, 4, order=o, full=True)
    for i, o in enumerate(orders(5)):
        yield from g('big_history', ('IG',) if i % 10 else IV, 7, order=o)
    for o in weak_orders(4):
        yield from g('big_history', IV, 4, order=o)
    for t in ('wide10b', 'wide16c', 'wide20d'):
        yield from g('wide_history', IV, 6, topo=t, ops=[('drop', ['any', [2 * i, 2 * i + 1]]) for i in range(5)])
        yield from g('wide_history', IV, 6, topo=t, ops=[('dropall', (0, 1)), ('drop', ['any', [0, 1, 2, 3]]), ('add', (0, 1))], full=False)
    for t in ('wide6e', 'wide8a'):
        for o in ('cut', 'cutfrom', 'cutto'):
            yield from g('wide_history', IV, 8, topo=t, ops=[(o, (0, 1))])


add('I02', 'Interval histories: every view shows the edges which are there',
    'After any sequence of adding, removing (by exact interval, by window, all of a pair) and adding edges again, an '
    'interval graph holds exactly the edges which were added and not removed since. Asking by time, by node, by pair '
    'of nodes and for everything gives consistent answers, and so does the time span of the graph.',
    ['histories', 'inputs'], 'all histories of the stated shapes, with all times of the edges and of the windows',
    'Edges are stored twice, in a search tree and in an adjacency; whether they stay in step depends on the history '
    'and on coinciding times. Tests remove edges from one or two fixed graphs.',
    IVF, [('removal from the index', 'intervaltree.py: remove, discard'),
          ('removal of edges', 'intervalgraph.py: remove_edge, add_edge; intervaldigraph.py: remove_edge, add_edge')],
    quick, thorough, ('after the history, all edges some', 'after the history, by window some',
                      'after the history, by window not all'),
    bounds='histories of up to 5 operations on 3 nodes; 4 (thorough: 5) edges added in any order with a removal of '
           'any one (thorough: two of 4), 3 (thorough: 4) with any ties of their begins; up to 6 (thorough: 7) edges in given orders with up to 2 (thorough: 4) removals'
           '; up to 10 (thorough: 20) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for f in ('u', 'v', 'uv', 'ul', 'vl'):
        yield from g('edges_nodes', IV, 2, topo='rev2', form=f)
        yield from g('edges_nodes', IV, 2, topo='loop2', form=f)
    for f in ('u', 'v'):
        yield from g('edges_nodes', IV, 2, topo='mix3', form=f, mode='none')
        yield from g('edges_nodes', IV, 3, topo='two', form=f, mode='begin')
        yield from g('edges_nodes', IV, 3, topo='two', form=f, mode='end')
    for f in ('ul_vl', 'u_vl', 'ul_v'):
        yield from g('edges_nodes', IV, 3, topo='two', form=f, mode='none')
        yield from g('edges_nodes', IV, 4, topo='par2', form=f)
    for st in ('str', 'tup'):
        for f in ('u', 'uv', 'ul', 'vl'):
            yield from g('edges_nodes', IV, 2, topo='two', form=f, style=st, mode='none')
            yield from g('edges_nodes', IV, 2, topo='rev2', form=f, style=st, mode='full')
    for f in ('u', 'v', 'uv'):
        yield from g('edges_nodes', IV, 2, topo='rev2', form=f, degenerate=True)
        for m in INFINITE:
            yield from g('edges_nodes', IV, 2, topo='two', form=f, mode=m)
    for f in ('u', 'uv'):
        yield from g('edges_nodes', IV, 3, topo='looped', form=f)
    yield from g('edges_nodes', IV, 3, topo='revpar', form='uv')
    yield from g('edges_nodes', IV, 3, topo='tri', form='u')
    yield from g('edges_nodes', IV, 3, topo='par3', form='u')
    yield from g('edges_nodes', IV, 4, topo='looped', form='ul_v', mode='none', inc='default')
    yield from g('edges_nodes', IV, 8, topo='looped', form='ul_vl', mode='none', inc='default')
    for f, t in (('u', 'wide8a'), ('v', 'wide8b'), ('uv', 'wide8c')):
        yield from g('edges_nodes', IV, 2, topo=t, form=f)
    yield from g('edges_nodes', IV, 2, topo='wide6a', form='ul', inc='default')
    for f in ('u', 'v', 'uv'):
        yield from g('edges_nodes', IV, 2, topo='rev2', form=f, reals=True)
        yield from g('edges_nodes', IV, 2, topo='wide6b', form=f, reals=True)
    yield from g('edges_nodes', IV, 2, topo='two', form='ul_vl', reals=True, inc='default', style='int')


def thorough():
    for t in ('tri', 'rev3', 'loop3', 'mix3', 'star3'):
        for f in ('u', 'v', 'uv', 'ul', 'vl', 'ul_vl', 'u_vl', 'ul_v'):
            yield from g('edges_nodes', IV, 5, topo=t, form=f, mode='none')
    for t in ('rev2', 'loop2', 'two', 'par2'):
        for f in ('u', 'v', 'uv', 'ul', 'vl', 'ul_vl', 'u_vl', 'ul_v'):
            for m in ('full', 'begin', 'end'):
                yield from g('edges_nodes', IV, 4, topo=t, form=f, mode=m)
    for t in ('rev3', 'loop3'):
        for f in ('u', 'v', 'uv'):
            yield from g('edges_nodes', IV, 7, topo=t, form=f)
    for f in ('u', 'v', 'uv'):
        for t in ('wide10a', 'wide12b', 'wide16c'):
            yield from g('edges_nodes', IV, 6, topo=t, form=f)
    for f in ('ul', 'vl', 'u_vl', 'ul_v', 'ul_vl'):
        yield from g('edges_nodes', IV, 6, topo='wide6b', form=f, inc='default', style='int')
        yield from g('edges_nodes', IV, 6, topo='wide8b', form=f, mode='begin', inc='default', style='int')


add('I03', 'Interval queries with nodes are exact',
    'Restricting a query of an interval graph to a start node, an end node, lists of them, or both, with or without a '
    'time window, gives exactly the edges of the graph which have such ends and are active in the window, each one '
    'once. In directed graphs the first names where edges start and the second where they end; in undirected ones an '
    'edge counts either way round. Strings and tuples are nodes, not lists of nodes.',
    ['inputs'], 'all nodes and lists of nodes (present or not), all window bounds, all edge intervals',
    'Five query forms times window forms times node roles; the tests try single combinations on one graph, and lists '
    'or absent nodes hardly at all.',
    IVF, [('node-first search', 'intervalgraph.py, intervaldigraph.py: edges, __edges_node_first'),
          ('lists of nodes', 'intervalgraph.py: _pack_nodes')],
    quick, thorough, ('edges of the nodes some', 'edges of the nodes not all'),
    bounds='up to 3 edges on up to 4 nodes and one node which is not in the graph; windows with 2 edges (thorough: 3)'
           '; up to 8 (thorough: 16) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for w in ('has_edge', 'has_node', 'nodes'):
        for m in MODES:
            yield from g('membership', IV, 2, topo='par2', what=w, mode=m)
        yield from g('membership', IV, 2, topo='two', what=w, mode='full')
        yield from g('membership', IV, 2, topo='rev2', what=w, mode='full', style='str')
        yield from g('membership', IV, 2, topo='loop2', what=w, mode='full')
    yield from g('has_edge_exact', IV, 2, topo='par2')
    yield from g('has_edge_exact', IV, 2, topo='rev2')
    yield from g('has_edge_exact', IV, 2, topo='loop2')
    yield from g('has_edge_exact', IV, 2, topo='par2', degenerate=True)
    for w in ('has_edge', 'has_node', 'nodes'):
        yield from g('membership', IV, 2, topo='two', what=w, degenerate=True)
        for m in INFINITE:
            yield from g('membership', IV, 1, topo='two', what=w, mode=m)
    yield from g('membership', IV, 3, topo='par3', what='has_edge')
    yield from g('membership', IV, 4, topo='tri', what='has_node')
    yield from g('membership', IV, 3, topo='tri', what='nodes')
    for w in ('has_edge', 'has_node', 'nodes'):
        for m in ('begin', 'end', 'point'):
            yield from g('membership', IV, 1, topo='two', what=w, mode=m, degenerate='all')
    for w in ('has_edge', 'has_node', 'nodes'):
        yield from g('membership', IV, 2, topo='wide8b', what=w)
    yield from g('has_edge_exact', IV, 1, topo='wide12a')
    yield from g('membership', IV, 3, topo='wide20a', mode='begin', what='nodes')
    for w in ('has_edge', 'has_node', 'nodes'):
        yield from g('membership', IV, 2, topo='two', what=w, reals=True)
    yield from g('has_edge_exact', IV, 1, topo='two', reals=True)


def thorough():
    for t in ('two', 'rev2', 'loop2', 'mix3', 'tri'):
        for w in ('has_edge', 'has_node', 'nodes'):
            for m in MODES:
                yield from g('membership', IV, 4, topo=t, what=w, mode=m)
    yield from g('has_edge_exact', IV, 5, topo='mix3')
    yield from g('has_edge_exact', IV, 5, topo='rev3')
    yield from g('has_edge_exact', IV, 2, topo='two', style='str')
    for t in ('wide10c', 'wide12d', 'wide16e'):
        for w in ('has_edge', 'has_node', 'nodes'):
            yield from g('membership', IV, 6, topo=t, what=w)
    yield from g('has_edge_exact', IV, 3, topo='wide20b')
    yield from g('membership', IV, 6, topo='wide40a', mode='end', what='nodes')


add('I04', 'Interval graphs: membership of edges and nodes',
    'An interval graph says it has an edge between two nodes in a window exactly when one of their edges is active in '
    'it, and, asked for an exact interval, exactly when an edge has just that interval. It says it has a node in a '
    'window exactly when an edge of the node is active in it; listing and counting the nodes agree with that. Without '
    'a window every node which was added counts, with or without edges; '
    'what cannot be a node is not in the graph.',
    ['inputs'], 'all edge intervals, all windows, all pairs of nodes, present or not',
    'Yes/no answers over all window positions, including windows which only touch an edge; tests probe a few.',
    IVF, [('membership', 'intervalgraph.py: has_edge, has_node, nodes, number_of_nodes, __len__, __contains__; '
           'intervaldigraph.py: has_edge')],
    quick, thorough, ('has_edge True', 'has_edge False', 'has_node True', 'has_node False', 'nodes some',
                      'nodes not all', 'exact True', 'exact False'),
    bounds='2 edges, edges of length zero too; 3 edges for the full window, one node without edges, one node outside'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary')


def quick():
    full = dict(full=True, nodes=True, interval=True)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('nodewin', ['any', [0, 1, 2]])], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('nodewin', ['any', [0, 1]])], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('node', ['any', [0, 1, 2]])], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 0)), ('node', 0), ('add', (1, 2))], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 0)), ('add', (0, 1)), ('nodewin', 0)], **full)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('node', 1), ('readd', 0)], **full)
    yield from g('history', IV, 2, ops=[('isolated', 2), ('add', (0, 1)), ('node', 2)], **full)
    yield from g('history', IV, 2, ops=[('add', (0, 1)), ('node', 0), ('isolated', 0)], **full)
    nowin = dict(nodes=True, full=True, interval=True, window_too=False)
    for n in (0, 1):
        yield from g('history', IV, 4, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (0, 1)), ('nodewin', n)], **nowin)
    yield from g('history', IV, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('nodewin', ['any', [0, 1, 2]])],
                 degenerate=True, **nowin)
    for op in (('nodefrom', ['any', [0, 1]]), ('nodeto', ['any', [0, 1]])):
        yield from g('history', IV, 1, ops=[('add', (0, 1)), ('add', (0, 1)), op], **nowin)
        yield from g('history', IV, 1, ops=[('add', (0, 1)), ('add', (1, 2)), op], **nowin)
        yield from g('history', IV, 1, ops=[('add', (0, 0)), ('add', (1, 0)), op], **nowin)
    for op in (('node', 2), ('nodewin', 2)):
        yield from g('history', IV, 1, ops=[('add', (0, 1)), op], **nowin)
    yield from g('wide_history', IV, 2, topo='wide10b', ops=[('node', ['any', [0, 2]]), ('dropall', (1, 3))])
    yield from g('wide_history', IV, 3, topo='wide6c', ops=[('nodeto', ['any', [0, 1]])])
    yield from g('wide_history', IV, 3, topo='wide20b', ops=[('node', 0), ('dropall', (1, 3))], full=False)
    for o in ('nodewin', 'nodefrom', 'nodeto'):
        yield from g('history', IV, 2, ops=[('add', (0, 1)), ('add', (1, 2)), (o, 1)], nodes=True, reals=True)


def thorough():
    full = dict(full=True, nodes=True, interval=True)
    yield from g('history', IV, 9, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (0, 2)), ('nodewin', 1)], **full)
    yield from g('history', IV, 7, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (2, 0)), ('node', ['any', [0, 1, 2]])],
                 **full)
    yield from g('history', IV, 7, ops=[('add', (0, 1)), ('add', (1, 0)), ('nodewin', 1), ('readd', 0)], **full)
    yield from g('history', IV, 7, ops=[('add', (0, 1)), ('add', (0, 1)), ('nodewin', 1), ('nodewin', 0)], **full)
    yield from g('history', IV, 7, ops=[('add', (0, 1)), ('add', (0, 1)), ('add', (1, 2)), ('node', 1), ('add', (0, 1))],
                 **full)
    yield from g('history', IV, 4, ops=[('add', (0, 1)), ('cut', (0, 1)), ('node', 0), ('add', (0, 1))], **full)
    for t in ('wide12b', 'wide16c', 'wide20d'):
        yield from g('wide_history', IV, 6, topo=t, ops=[('node', ['any', [0, 2]]), ('node', ['any', [1, 3]])])
    for t in ('wide6b', 'wide8a'):
        for o in ('nodefrom', 'nodeto', 'nodewin'):
            yield from g('wide_history', IV, 9, topo=t, ops=[(o, 0)])
    yield from g('wide_history', IV, 7, topo='wide40b', ops=[('node', ['any', [0, 2]]), ('dropall', (1, 3))], full=False)


add('I05', 'Interval graphs: removing a node',
    'Removing a node from an interval graph removes the node and all of its edges; removing it within a window '
    'removes exactly its edges active in the window, and the node itself only when none of its edges is left. '
    'Everything else stays, and every way of asking shows the result.',
    ['histories', 'inputs'], 'all edge intervals, all windows, all nodes of the stated histories',
    'Needs the combination of which edges the window hits with what every view shows afterwards; tests check the '
    'edge list of fixed graphs.',
    IVF, [('node removal', 'intervalgraph.py: remove_node, __remove_iedge; intervaldigraph.py: remove_node')],
    quick, thorough, ('after the history, all edges some', 'after the history, all edges not all'),
    bounds='2 edges, histories of up to 4 operations; 3 edges with one removal within a window'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for m in ('full', 'begin', 'end', 'none'):
        for t in ('par2', 'loop2'):
            yield from g('degree', IV, 2, topo=t, mode=m)
            for w in ('in_degree', 'out_degree'):
                yield from g('degree', ('IDG',), 2, topo=t, which=w, mode=m)
    for m in ('full', 'none', 'begin', 'end'):
        yield from g('degree_delta', IV, 3, topo='par2', mode=m)
        for w in ('in_degree', 'out_degree'):
            yield from g('degree_delta', ('IDG',), 3, topo='rev2', which=w, mode=m)
    yield from g('degree_delta', ('IDG',), 3, topo='rev2')
    for m in ('full', 'none', 'begin', 'end'):
        yield from g('mean_degree', IV, 2, topo='two', mode=m)
        for w in ('in_degree', 'out_degree'):
            yield from g('mean_degree', ('IDG',), 2, topo='two', which=w, mode=m)
    yield from g('degree', IV, 3, topo='par3')
    yield from g('degree', IV, 3, topo='looped', mode='none')
    yield from g('degree_delta', IV, 4, topo='par3', mode='none')
    yield from g('mean_degree', IV, 3, topo='tri')
    for w in ('degree',) + ('in_degree', 'out_degree'):
        yield from g('mean_degree', IV if w == 'degree' else ('IDG',), 1, topo='two', mode='none', which=w, isolated=True)
    for m in ('full', 'begin', 'end'):
        yield from g('degree', IV, 1, topo='par2', mode=m, degenerate='all')
        yield from g('mean_degree', IV, 1, topo='two', mode=m, degenerate='all')
    yield from g('degree', IV, 2, topo='wide8a')
    yield from g('degree_delta', IV, 2, topo='wide8b')
    yield from g('mean_degree', IV, 2, topo='wide6c')
    for w in ('in_degree', 'out_degree'):
        yield from g('degree', ('IDG',), 2, topo='wide8c', which=w)
        yield from g('degree_delta', ('IDG',), 2, topo='wide6d', which=w)
    yield from g('degree', IV, 3, topo='wide20a', mode='end')
    for m in ('full', 'begin', 'end'):
        yield from g('degree', IV, 1, topo='rev2', mode=m, reals=True)
        yield from g('degree_delta', IV, 1, topo='two', mode=m, reals=True)
        yield from g('mean_degree', IV, 1, topo='two', mode=m, reals=True)


def thorough():
    for t in ('mix3', 'rev3', 'loop3'):
        for m in ('full', 'begin', 'end', 'none'):
            yield from g('degree', IV, 4, topo=t, mode=m)
            yield from g('degree', ('IDG',), 4, topo=t, which='in_degree', mode=m)
            yield from g('degree', ('IDG',), 4, topo=t, which='out_degree', mode=m)
    for t in ('par3', 'rev3'):
        for m in ('none', 'full'):
            yield from g('degree_delta', IV, 8, topo=t, mode=m)
            yield from g('degree_delta', ('IDG',), 8, topo=t, mode=m, which='in_degree')
            yield from g('degree_delta', ('IDG',), 8, topo=t, mode=m, which='out_degree')
    for t in ('tri', 'mix3', 'loop3'):
        for m in ('full', 'none'):
            yield from g('mean_degree', IV, 5, topo=t, mode=m)
            yield from g('mean_degree', ('IDG',), 5, topo=t, mode=m, which='in_degree')
    yield from g('degree', IV, 2, topo='two', style='str')
    for t in ('wide8d', 'wide12b', 'wide16c'):
        yield from g('degree', IV, 6, topo=t)
        yield from g('degree_delta', IV, 6, topo=t)
    yield from g('mean_degree', IV, 6, topo='wide10e')
    yield from g('degree', IV, 6, topo='wide40a', mode='begin')


add('I06', 'Interval graphs: degrees count the active edges',
    'The degree of a node of an interval graph in a window is the number of its edges active in the window, split by '
    'direction for in- and out-degrees; without a node it is the mean over the nodes present in the window. The '
    'change list of a degree is in order of time, names exactly the times at which an edge of the node begins or '
    'ends in the window, and gives the number of edges active from that time on.',
    ['inputs'], 'all edge intervals, all windows and nodes',
    'Coinciding begins and ends, and edges which reach over the window, decide the result; tests compare a few lists.',
    IVF[:2], [('degrees', 'intervalgraph.py: degree; intervaldigraph.py: degree, in_degree, out_degree')],
    quick, thorough, ('degree some', 'degree zero', 'delta some', 'mean'),
    bounds='2 edges, edges of length zero too; 3 edges in some windows (thorough: in all)'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary',
    assume=['the mean is compared up to a rounding error of 2^-20', 'change lists are asked for windows with '
            'begin < end'])


def quick():
    for m in ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'):
        for w in ('full', 'begin', 'end', 'none', 'point'):
            yield from g('stamps', IV, 2, topo='two', meth=m, mode=w)
        yield from g('stamps', IV, 2, topo='par2', meth=m, drop=True, inc='default')
    yield from g('extent', IV, 2, topo='tri', drop=True)
    yield from g('extent', IV, 2, topo='par3')
    yield from g('extent', IV, 2, topo='par2', drop=True, sort='real')
    for o in orders(4):
        yield from g('big_history', IV, 1, order=o, drops=3, views=False)
    for m in ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'):
        yield from g('stamps', IV, 2, topo='two', meth=m, degenerate='all')
    yield from g('extent', IV, 2, topo='par2', drop=True, degenerate='all')
    yield from g('extent', IV, 1, topo='wide12a')
    yield from g('stamps', IV, 3, topo='wide6b', meth='unique_timestamps')
    for m in ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'):
        yield from g('stamps', IV, 2, topo='par2', meth=m, reals=True)


def thorough():
    for m in ('unique_timestamps', 'unique_begin_timestamps', 'unique_end_timestamps'):
        for w in ('full', 'begin', 'end', 'none'):
            yield from g('stamps', IV, 7, topo='tri', meth=m, mode=w)
        yield from g('stamps', IV, 5, topo='tri', meth=m, drop=True, inc='default')
    yield from g('extent', IV, 4, topo='path4')
    yield from g('extent', IV, 4, topo='mix4', drop=True)
    yield from g('extent', IV, 4, topo='path5')
    for i, o in enumerate(orders(5)):
        yield from g('big_history', ('IG',) if i % 10 else IV, 5, order=o, drops=3, views=False)
    yield from g('extent', IV, 3, topo='wide20b')
    yield from g('stamps', IV, 6, topo='wide10b', meth='unique_timestamps')


add('I07', 'Interval graphs: time span and time stamps',
    'The interval of an interval graph runs from the earliest begin to the latest end of its edges, whatever was '
    'added or removed before. The lists of time stamps hold, in increasing order and each once, exactly the begins, '
    'the ends, or both, which lie in the window asked for, with its ends included or not as asked.',
    ['inputs', 'histories'], 'all edge intervals, all windows, all choices of included ends, after removals too',
    'Depends on coinciding times and on which edge was removed; tests have one graph each.',
    [IVF[0], IVF[2]], [('time span', 'intervalgraph.py: interval; intervaltree.py: add, remove'),
                       ('time stamps', 'intervaltree.py: unique_timestamps, unique_begin_timestamps, '
                        'unique_end_timestamps')],
    quick, thorough, ('stamps some', 'stamps none'),
    bounds='2 edges for time stamps, 3 for the span (thorough: 3 and 5); 4 (thorough: 5) edges added in any order '
           'and up to 3 of them removed again'
           '; up to 12 (thorough: 20) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for h in ('true', 'true_u', 'key', 'key_u'):
        yield from g('attributes', IV, 2, topo='par2', how=h)
        yield from g('attributes', IV, 3, topo='two', how=h, mode='full')
        yield from g('attributes', IV, 3, topo='par2', how=h, odd=True)
    yield from g('reattr', IV, 2)
    yield from g('reattr', IV, 2, topo='rev2')
    yield from g('node_attributes', IV, 2)
    yield from g('node_attributes', IV, 1, style='str')
    for h in ('true', 'key'):
        yield from g('attributes', IV, 2, topo='par2', how=h, mode='full', degenerate='all')
    yield from g('reattr', IV, 2, degenerate='all')


def thorough():
    for h in ('true', 'true_u', 'key', 'key_u'):
        for t in ('mix3', 'rev3', 'loop3'):
            yield from g('attributes', IV, 4, topo=t, how=h)
        yield from g('attributes', IV, 4, topo='rev2', how=h, mode='begin')
        yield from g('attributes', IV, 4, topo='par2', how=h, mode='full', style='str')
    yield from g('reattr', IV, 4, topo='mix3')
    yield from g('reattr', IV, 4, topo='rev3', style='str')


add('I08', 'Interval graphs: attributes stay with their edge and node',
    'Every edge and node of an interval graph shows exactly the attributes it was given, by whichever query it is '
    'found; adding it again updates its attributes and no others, removing it forgets them. Asking for one attribute '
    'gives its value, or the default where it is not set.',
    ['inputs', 'histories'], 'all edge intervals (also coinciding ones) and windows, all choices of attribute',
    'Attributes are kept per edge and per direction of storage; whether two edges are the same one depends on their '
    'times. Tests set one attribute on one edge.',
    IVF[:2], [('edge data', 'intervalgraph.py: add_edge, edges; intervaldigraph.py: add_edge, edges'),
              ('node data', 'intervalgraph.py: add_node, add_nodes_from, nodes')],
    quick, thorough, ('data=True some', 'data=key some', 'node attributes'),
    bounds='2 edges, edges of length zero too (thorough: 3), two attributes each')


def quick():
    yield from g('subgraph', IV, 3, topo='two')
    yield from g('subgraph', IV, 3, topo='par2')
    yield from g('subgraph', IV, 3, topo='two', odd=True)
    yield from g('subgraph', IV, 3, topo='par2', odd=True)
    yield from g('subgraph', IV, 3, topo='rev2', odd=True)
    yield from g('subgraph', IV, 3, topo='rev2')
    yield from g('subgraph', IV, 2, topo='loop2', flags=(True, True, True, True))
    for m in ('begin', 'end', 'none'):
        yield from g('subgraph', IV, 2, topo='two', mode=m, flags=(True, True, True, True), alias=True)
    for m in INFINITE:
        yield from g('subgraph', IV, 2, topo='rev2', mode=m)
    yield from g('subgraph', IV, 3, topo='two', degenerate='all')
    yield from g('subgraph', IV, 3, topo='par3', flags=(True, True, True, True))
    yield from g('subgraph', IV, 3, topo='mix3', flags=(False, True, True, True))
    yield from g('subgraph', IV, 2, topo='wide8b', flags=(True, True, True, True))
    yield from g('subgraph', IV, 2, topo='wide8c', flags=(False, True, True, True))
    yield from g('subgraph', IV, 2, topo='rev2', flags=(False, False, False, False), alias=True)
    yield from g('subgraph', IV, 2, topo='two', flags=(True, True, True, True), reals=True)


def thorough():
    for t in ('mix3', 'rev3', 'loop3'):
        yield from g('subgraph', IV, 7, topo=t)
    for m in ('begin', 'end', 'none'):
        for t in ('par2', 'rev2'):
            yield from g('subgraph', IV, 3, topo=t, mode=m, alias=True)
    yield from g('subgraph', IV, 2, topo='two', style='str')
    for t in ('wide10a', 'wide12b'):
        yield from g('subgraph', IV, 6, topo=t, flags=(True, True, True, True))
        yield from g('subgraph', IV, 6, topo=t, flags=(False, False, True, True))
    yield from g('subgraph', IV, 8, topo='wide6d')


add('I09', 'Interval graphs: the static graph of a window',
    'The static graph which an interval graph gives for a window has an edge between two nodes exactly when one of '
    'their edges is active in the window (as a multigraph, one for each such edge), has the nodes of these edges, and '
    'carries the edge attributes, interval ends and node attributes exactly if they were asked for. It is directed '
    'exactly if the graph is, and the graph itself is not changed.',
    ['inputs', 'configurations'], 'all edge intervals and windows, all 16 combinations of what to include',
    'Sixteen option combinations times the edges a window hits; tests use two or three of them.',
    IVF[:2], [('static graph', 'intervalgraph.py: to_subgraph, to_networkx_graph; intervaldigraph.py: the same')],
    quick, thorough, ('edges', 'no edges'),
    bounds='2 edges, edges of length zero too; 3 edges for some combinations (thorough: all)'
           '; up to 8 (thorough: 12) edges, the order of their times given, the times and windows arbitrary',
    assume=['where several edges of a pair fall together in a simple graph, the data is that of one of them'])


def quick():
    for k in (2, 3, 4):
        yield from g('snapshots', IV, 3, topo='two', by='number', k=k)
    yield from g('snapshots', IV, 3, topo='par2', by='number', k=2, flags='any')
    yield from g('snapshots', IV, 3, topo='two', by='number', k=2, flags='any', odd=True)
    yield from g('snapshots', IV, 3, topo='two', by='number', k=2, sort='real')
    for k in (2, 3):
        yield from g('snapshots', IV, 3, topo='two', by='length', k=k, retlen=True)
    yield from g('snapshots', IV, 3, topo='rev2', by='length', k=1, flags=(True, True, True, True))
    yield from g('snapshots', IV, 3, topo='two', by='number', k=2, degenerate='all')
    for k in (2, 1.5):
        yield from g('snapshots', IV, 2, topo='two', by='length', k=k, sort='real', retlen=True)
    yield from g('snapshots', IV, 1, topo='two', by='length', k=1.5, sort='int')
    yield from g('snapshots', IV, 3, topo='wide6d', by='number', k=3)


def thorough():
    for k in (2, 3, 4):
        yield from g('snapshots', IV, 8, topo='tri', by='number', k=k)
    for k in (5, 6, 8):
        yield from g('snapshots', IV, 6, topo='two', by='number', k=k)
    for k in (2, 3, 4):
        yield from g('snapshots', IV, 7, topo='rev2', by='number', k=k, flags='any')
    for k in (1, 2, 5):
        yield from g('snapshots', IV, 7, topo='mix3', by='length', k=k)
    yield from g('snapshots', IV, 7, topo='tri', by='number', k=2, sort='real', retlen=True)
    for k in (2, 0.75):
        yield from g('snapshots', IV, 7, topo='tri', by='length', k=k, sort='real')
    for k in (1, 2, 3):
        yield from g('snapshots', IV, 6, topo='wide8a', by='number', k=k, flags=(True, True, True, True))
        yield from g('snapshots', IV, 6, topo='wide6b', by='length', k=k)


add('I10', 'Interval graphs: splitting into snapshots of equal length',
    'Splitting an interval graph into a number of snapshots, or into snapshots of a length, cuts its whole time span '
    'into consecutive windows of equal length, as many as asked or as needed, in order of time. Each snapshot is the '
    'static graph of its window (the last one includes the end), with the attributes asked for, and the length '
    'reported is the one used.',
    ['inputs', 'configurations'], 'all edge intervals, the stated numbers and lengths of snapshots',
    'Windows and edge ends coincide at the cuts; tests compare one graph with fixed results.',
    IVF[:1], [('equal snapshots', 'intervalgraph.py: to_snapshots')],
    quick, thorough, ('snapshots',),
    bounds='2 edges and 2, 3 or 4 snapshots (thorough: 3 edges, up to 8 snapshots); at most 4 snapshots by length'
           '; up to 6 (thorough: 8) edges, the order of their times given, the times and windows arbitrary',
    assume=['for a number of snapshots which is not a power of two the span is a multiple of it, so that floating '
            'point and exact arithmetic agree'])


def quick():
    yield from g('snapshot_graph', IV, 3, topo='two')
    yield from g('snapshot_graph', IV, 3, topo='par2')
    yield from g('snapshot_graph', IV, 3, topo='rev2', flags=(True, True, True, True))
    yield from g('snapshot_graph', IV, 3, topo='two', sort='real')
    yield from g('snapshot_graph', IV, 3, topo='loop2', flags='any')
    yield from g('snapshot_graph', IV, 3, topo='two', flags='any', odd=True)
    yield from g('snapshot_graph', IV, 8, topo='tri')
    for o in ([0, 0, 0, 0], [0, 0, 0, 1], [0, 1, 2, 3]):
        yield from g('snapshot_graph', IV, 3 if o[3] < 3 else 9, topo='path4', order=o)
    yield from g('snapshot_graph', IV, 2, topo='path5', order=[2, 0, 4, 1, 3], last=[0, 1, 2, 3, 4])
    yield from g('snapshot_graph', IV, 3, topo='path6', order=[0, 0, 0, 0, 1, 2], last=[0, 1, 2, 3, 4, 5])
    yield from g('snapshot_graph', IV, 1, topo='tri', impulses=True)
    yield from g('snapshot_graph', IV, 1, topo='wide12a')
    yield from g('snapshot_graph', IV, 1, topo='wide8d', flags=(True, True, True, True))
    yield from g('snapshot_graph', IV, 2, topo='wide20e')


def thorough():
    yield from g('snapshot_graph', IV, 8, topo='tri')
    yield from g('snapshot_graph', IV, 8, topo='par3')
    yield from g('snapshot_graph', IV, 8, topo='rev3', flags=(True, True, True, False))
    yield from g('snapshot_graph', IV, 8, topo='mix3', flags=(False, True, False, True))
    for t in ('wide16a', 'wide20b', 'wide20c'):
        yield from g('snapshot_graph', IV, 3, topo=t)
        yield from g('snapshot_graph', IV, 3, topo=t, flags=(False, True, False, True))
    yield from g('snapshot_graph', IV, 7, topo='wide70a')


add('I11', 'Interval graphs: the snapshot graph shows each time exactly',
    'The snapshot graph of an interval graph has, at every moment, a snapshot whose edges are exactly the edges '
    'active at that moment. Its snapshots do not overlap, are in order of time and cover every moment at which an '
    'edge is active; they carry the attributes asked for and the direction of the graph.',
    ['inputs', 'configurations'], 'all edge intervals, every moment in time, all 16 combinations of what to include',
    'A claim about every moment between all begins and ends; tests look at one example.',
    IVF[:1] + SNF, [('change points', 'intervalgraph.py: to_snapshot_graph'),
                    ('snapshots', 'snapshotgraph.py: insert, add_snapshot')],
    quick, thorough, ('snapshot graph',), bounds='3 edges at arbitrary times; 4 in given orders of their begins; 5 and 6 in given orders of begins and ends'
           '; up to 20 (thorough: 70) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for t in ('two', 'rev2'):
        for c in (False, True):
            yield from g('from_networkx', ('IG',) if t == 'two' else (), 2, topo=t, custom=c)
            yield from g('from_networkx', ('IDG',), 2, topo=t, custom=c)
    for t in ('par2', 'rev2', 'loop2'):
        yield from g('from_networkx', IV, 2, topo=t, multi=True)
    yield from g('from_networkx', IV, 2, topo='par2', multi=True, custom=True)
    for c in (False, True):
        yield from g('from_networkx', IV, 1, topo='one', custom=c, others=True)
        yield from g('from_networkx', IV, 1, topo='two', multi=True, custom=c, others=True)
    for k in (1, 2, 3):
        yield from g('from_snapshots', IV, 3, k=k)
    yield from g('from_networkx', IV, 2, topo='par2', multi=True, degenerate='all')
    yield from g('from_networkx', IV, 2, topo='wide8b', multi=True)
    yield from g('from_networkx', IV, 2, topo='wide6c', multi=True, custom=True)
    yield from g('from_networkx', IV, 1, topo='two', reals=True)


def thorough():
    yield from g('from_networkx', IV, 5, topo='mix3', multi=True)
    yield from g('from_networkx', ('IG',), 5, topo='tri')
    yield from g('from_networkx', ('IDG',), 5, topo='rev3')
    yield from g('from_networkx', IV, 5, topo='par3', multi=True, custom=True)
    yield from g('from_snapshots', IV, 5, k=4)
    yield from g('from_snapshots', IV, 5, k=5, pairs=((0, 1),))
    yield from g('from_networkx', IV, 6, topo='wide16b', multi=True)


add('I12', 'Interval graphs: conversion from static and snapshot graphs',
    'An interval graph made from a static graph has one edge for each of its edges, at the times named by the chosen '
    'attributes and with the other attributes. Made from a snapshot graph it has, at every moment, exactly the edges '
    'of the snapshot that moment falls into, the i-th snapshot lasting one period from the begin plus i periods. The '
    'result is of the class asked, with the directions of the edges kept.',
    ['inputs'], 'all times, begins and periods, all presence patterns of edges in the snapshots',
    'Presence patterns over consecutive snapshots and every moment in time; tests convert one example each.',
    IVF[:1], [('conversions', 'intervalgraph.py: from_networkx_graph, from_snapshot_graph')],
    quick, thorough, ('edges', 'edges some'), bounds='3 edges; 3 snapshots of 2 edges (thorough: up to 5 snapshots)'
           '; up to 8 (thorough: 16) edges, the order of their times given, the times and windows arbitrary')


def t(name, kinds, cost=1, **p):
    for k in kinds:
        yield T('h_text.' + name, cost, kind=k, **p)


def quick():
    yield from t('roundtrip', IV, 4, topo='two')
    yield from t('roundtrip', IV, 2, topo='rev2', nodes='str', delim=';')
    yield from t('roundtrip', IV, 3, topo='one', delim=',', odd=True, nodes='str')
    yield from t('loading', IV, 3, topo='one', odd=True)
    yield from t('roundtrip', IV, 2, topo='par2', attr='num', delim=' ', sort='int')
    yield from t('roundtrip', IV, 3, topo='mix3', delim=',', attr='plain', drop=True)
    yield from t('loading', IV, 4, topo='one', order='any')
    yield from t('loading', IV, 3, topo='one', order='duration', attr='choose')
    yield from t('loading', IV, 3, topo='two', order='duration', sort='int', typed=True)
    for n in ('comments', 'marker', 'blank'):
        yield from t('loading', IV, 3, topo='two', noise=n)
    yield from t('loading', IV, 4, topo='one', delim='any', attr='choose')
    yield from t('loading', IV, 2, topo='rev2', typed=True, sort='int')
    yield from t('merging', IV, 3, topo='par2')
    yield from t('merging', IV, 3, topo='rev2', grace=0)
    yield from t('merging', IV, 3, topo='par2', data='sets')
    yield from t('roundtrip', IV, 2, topo='one', nodes='word', delim=',', attr='plain')
    yield from t('roundtrip', IV, 2, topo='wide8a', delim=' ', attr='none')
    yield from t('loading', IV, 3, topo='wide8b', delim=';')


def thorough():
    yield from t('roundtrip', IV, 7, topo='mix3')
    yield from t('roundtrip', IV, 5, topo='loop3', delim='\t')
    yield from t('roundtrip', IV, 5, topo='tri', delim='||', nodes='str')
    yield from t('loading', IV, 7, topo='two', order='any')
    yield from t('loading', IV, 7, topo='two', order='duration', attr='choose', delim='any')
    yield from t('loading', IV, 5, topo='one', order='duration', dur=1)
    yield from t('loading', IV, 5, topo='one', order='duration', dur=2.5)
    for n in ('comments', 'marker', 'blank'):
        yield from t('loading', IV, 5, topo='rev2', noise=n, attr='plain', delim=',')
    yield from t('loading', IV, 7, topo='mix3', delim='any', nodes='str')
    yield from t('merging', IV, 9, topo='par3')
    yield from t('merging', IV, 9, topo='mix3', grace=2)
    yield from t('merging', IV, 9, topo='rev3', grace=0)
    yield from t('merging', IV, 9, topo='par3', data='sets', grace=3)
    for d in (',', '|', ';'):
        yield from t('roundtrip', IV, 5, topo='wide12b', delim=d, attr='plain')


A_TEXT = ('the numeral of a number reads back as the number (Python\'s int, float, str are taken as correct); text '
          'attributes are the given ones')

add('I13', 'Interval graphs: text files give back the graph',
    'Saving an interval graph as text and loading it again gives the same edges, times and attributes, for every '
    'delimiter; a file as the documentation describes it, in any order of columns, with durations, comments, blank '
    'lines and attributes, gives exactly the edges of its lines. With merging, the edges are exactly the maximal runs '
    'of lines of one pair and one set of attributes whose gaps do not exceed the grace period.',
    ['inputs', 'configurations'], 'all node numbers, times and numeric attributes, all orders of columns, the listed '
    'delimiters and places of comments',
    'Column orders, delimiters, and all relative positions of merged lines; tests read a few fixed files.',
    IVF[:2], [('text', 'intervalgraph.py: load_from_txt, save_to_txt')],
    quick, thorough, ('round trip, edges some', 'loading, edges some', 'merged', 'alone'),
    bounds='up to 3 lines; merging of 2 lines (thorough: 3); delimiters blank , ; tab || ::'
           '; up to 8 (thorough: 12) edges, the order of their times given, the times and windows arbitrary', assume=[A_TEXT])


# ===================================================================================================== impulse graphs

def quick():
    for m in MODES:
        yield from g('edges_window', IM, topo='two', mode=m)
        yield from g('edges_window', IM, topo='par2', mode=m, inc='default')
    yield from g('edges_window', IM, 2, topo='tri')
    yield from g('edges_window', IM, 2, topo='rev3')
    yield from g('edges_window', IM, 2, topo='loop3')
    yield from g('edges_window', IM, topo='two', sort='real')
    yield from g('edges_window', IM, 3, topo=6, order=ORD6)
    for m in INFINITE:
        yield from g('edges_window', IM, topo='two', mode=m)
    for o in weak_orders(4)[::5] + orders(4)[::5]:
        yield from g('edges_window', IM, 1, topo=4, order=o)
    for t in ('wide8a', 'wide12a'):
        yield from g('edges_window', IM, 3, topo=t)
    yield from g('edges_window', IM, 2, topo='wide8b', mode='begin')
    yield from g('edges_window', IM, 2, topo='wide8c', mode='end')
    for m, t in (('begin', 'wide20b'), ('end', 'wide20c')):
        yield from g('edges_window', IM, 3, topo=t, mode=m)


def thorough():
    for t_ in ('tri', 'par3', 'mix3', 'rev3', 'loop3', 'star3'):
        for m in MODES:
            yield from g('edges_window', IM, 3, topo=t_, mode=m)
    yield from g('edges_window', IM, 8, topo='path4')
    yield from g('edges_window', IM, 8, topo='mix4')
    yield from g('edges_window', IM, 8, topo='mix5', inc='default')
    yield from g('edges_window', IM, 4, topo=8, order=[4, 2, 6, 1, 3, 5, 7, 0])
    for t in ('wide8c', 'wide8d', 'wide10b', 'wide12c', 'wide16d', 'wide20a', 'wide20e'):
        yield from g('edges_window', IM, 8, topo=t)
    for m in ('begin', 'end', 'one'):
        for t in ('wide16a', 'wide20b'):
            yield from g('edges_window', IM, 5, topo=t, mode=m)
    for m, t in (('begin', 'wide40a'), ('end', 'wide40b'), ('begin', 'wide40c')):
        yield from g('edges_window', IM, 7, topo=t, mode=m)


add('P01', 'Impulse window queries are exact',
    'Asking an impulse graph, directed or not, for the edges of a time window gives exactly the edges whose time lies '
    'in it, its begin and its end counting as inside exactly as asked. A window whose ends are equal stands for that '
    'moment; a bound which is left out does not restrict. No edge is missing and none is given twice.',
    ['inputs'], 'all edge times (coinciding ones too), all window bounds, all four choices of included ends',
    'Four inclusion modes times all coincidences of times and bounds; tests use the default on one graph.',
    IMF, [('search by time', 'impulsegraph.py, impulsedigraph.py: __search_tree, __in_interval, edges')],
    quick, thorough, ('edges in the window some', 'edges in the window not all'),
    bounds='up to 3 edges at arbitrary times (thorough: 4 to 5), 6 (thorough: 8) in a given order'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary')


def quick():
    full = dict(full=True, nodes=True, interval=True)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('cut', (0, 1)), ('readd', 0)], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('drop', 0), ('readd', 0)], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 0)), ('dropall', (0, 1)), ('add', (0, 1))], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 0)), ('add', (0, 1)), ('cut', (0, 0))], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('cutfrom', (0, 1)), ('add', (2, 1))], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('readd', 0), ('add', (1, 2)), ('drop', 1), ('drop', 0)],
                 **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (0, 1)), ('drop', 2)], **full)
    yield from g('big_history', IM, 3, order=ORD5)
    yield from g('big_history', IM, 3, order=[0, 1, 2, 3, 4], drops=2)
    for o in orders(4):
        yield from g('big_history', IM, 2, order=o, drops=2)
    nowin = dict(nodes=True, full=True, interval=True, window_too=False)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('add', (0, 1)), ('cut', (0, 1))], **nowin)
    for op in (('cutfrom', (0, 1)), ('cutto', (0, 1)), ('exact', (0, 1)), ('exact', (1, 0))):
        yield from g('history', IM, 1, ops=[('add', (0, 1)), ('add', (0, 1)), op], **nowin)
        yield from g('history', IM, 1, ops=[('add', (0, 1)), ('add', (1, 0)), op, ('readd', 0)], **nowin)
    for op in (('cut', (0, 2)), ('dropall', (2, 0)), ('exact', (0, 2))):
        yield from g('history', IM, 1, ops=[('add', (0, 1)), op], **nowin)
    yield from g('wide_history', IM, 2, topo='wide10a', ops=[('drop', ['any', [i, 5 + i]]) for i in range(4)])
    yield from g('wide_history', IM, 3, topo='wide6b', ops=[('cut', (0, 1))])
    yield from g('wide_history', IM, 3, topo='wide8c', ops=[('cutfrom', ['any', [(0, 1), (1, 0)]])])
    for o in ('cut', 'cutfrom', 'cutto', 'dropall'):
        yield from g('history', IM, 2, ops=[('add', (0, 1)), ('add', (0, 1)), (o, (0, 1))], reals=True)
    yield from g('wide_history', IM, 2, topo='wide8a', ops=[('drop', ['any', [0, 3, 6]])], reals=True)


def thorough():
    full = dict(full=True, nodes=True, interval=True)
    P3 = ['any', [(0, 1), (1, 0), (1, 2)]]
    yield from g('history', IM, 7, ops=[('add', (0, 1)), ('add', P3), ('cut', P3), ('add', P3)], **full)
    yield from g('history', IM, 7, ops=[('add', (0, 1)), ('add', P3), ('add', P3), ('cut', (0, 1)), ('readd', 0)],
                 **full)
    yield from g('history', IM, 6, ops=[('add', (0, 1)), ('add', P3), ('drop', ['any', [0, 1]]),
                                        ('readd', ['any', [0, 1]]), ('drop', ['any', [0, 1]])], **full)
    yield from g('history', IM, 6, ops=[('add', (0, 1)), ('cut', (0, 1)), ('add', (0, 1)), ('cut', (0, 1))], **full)
    yield from g('big_history', IM, 6, order=ORD6, drops=3)
    for t in ('wide10b', 'wide16c', 'wide20d'):
        yield from g('wide_history', IM, 6, topo=t, ops=[('drop', ['any', [2 * i, 2 * i + 1]]) for i in range(5)])
        yield from g('wide_history', IM, 6, topo=t, ops=[('dropall', (0, 1)), ('drop', ['any', [0, 1, 2, 3]]), ('add', (0, 1))], full=False)
    for t in ('wide6e', 'wide8a'):
        for o in ('cut', 'cutfrom', 'cutto'):
            yield from g('wide_history', IM, 8, topo=t, ops=[(o, (0, 1))])


add('P02', 'Impulse histories: every view shows the edges which are there',
    'After any sequence of adding, removing (at a moment, within a window, all of a pair) and adding edges again, an '
    'impulse graph holds exactly the edges which were added and not removed since. Asking by time, by node, by pair '
    'of nodes and for everything gives consistent answers, and so does the time span of the graph.',
    ['histories', 'inputs'], 'all histories of the stated shapes, with all times and windows',
    'Edges are stored by time and by node; whether the two stay in step depends on history and coinciding times.',
    IMF, [('removal', 'impulsegraph.py: remove_edge, add_edge; impulsedigraph.py: remove_edge, add_edge')],
    quick, thorough, ('after the history, all edges some', 'after the history, by window some',
                      'after the history, by window not all'),
    bounds='histories of up to 5 operations on 3 nodes; 4 edges added in any order with 2 '
           'removals; 5 (thorough: 6) edges in a given order with 2 (3) removals'
           '; up to 10 (thorough: 20) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for f in ('u', 'v', 'uv', 'ul', 'vl'):
        yield from g('edges_nodes', IM, 2, topo='rev2', form=f)
        yield from g('edges_nodes', IM, 2, topo='loop2', form=f, inc='default')
    for f in ('u', 'v'):
        yield from g('edges_nodes', IM, 2, topo='mix3', form=f, mode='none', inc='default')
        yield from g('edges_nodes', IM, 3, topo='two', form=f, mode='begin')
        yield from g('edges_nodes', IM, 3, topo='two', form=f, mode='end')
    for f in ('ul_vl', 'u_vl', 'ul_v'):
        yield from g('edges_nodes', IM, 3, topo='two', form=f, mode='none', inc='default')
        yield from g('edges_nodes', IM, 4, topo='par2', form=f, inc='default')
    for st in ('str', 'tup'):
        for f in ('u', 'uv', 'ul', 'vl'):
            yield from g('edges_nodes', IM, 2, topo='two', form=f, style=st, mode='none', inc='default')
            yield from g('edges_nodes', IM, 2, topo='rev2', form=f, style=st, mode='full', inc='default')
    for f in ('u', 'v', 'uv'):
        for m in INFINITE:
            yield from g('edges_nodes', IM, 2, topo='two', form=f, mode=m)
    for f in ('u', 'uv'):
        yield from g('edges_nodes', IM, 3, topo='looped', form=f)
    yield from g('edges_nodes', IM, 3, topo='revpar', form='uv')
    yield from g('edges_nodes', IM, 3, topo='tri', form='u')
    yield from g('edges_nodes', IM, 3, topo='par3', form='u')
    yield from g('edges_nodes', IM, 4, topo='looped', form='ul_v', mode='none', inc='default')
    yield from g('edges_nodes', IM, 8, topo='looped', form='ul_vl', mode='none', inc='default')
    for f, t in (('u', 'wide8a'), ('v', 'wide8b'), ('uv', 'wide8c')):
        yield from g('edges_nodes', IM, 2, topo=t, form=f)
    yield from g('edges_nodes', IM, 2, topo='wide6a', form='ul', inc='default')
    for f in ('u', 'v', 'uv'):
        yield from g('edges_nodes', IM, 2, topo='rev2', form=f, reals=True)
        yield from g('edges_nodes', IM, 2, topo='wide6b', form=f, reals=True)
    yield from g('edges_nodes', IM, 2, topo='two', form='ul_vl', reals=True, inc='default', style='int')


def thorough():
    for t_ in ('tri', 'rev3', 'loop3', 'mix3', 'star3'):
        for f in ('u', 'v', 'uv', 'ul', 'vl', 'ul_vl', 'u_vl', 'ul_v'):
            yield from g('edges_nodes', IM, 5, topo=t_, form=f, mode='none', inc='default')
    for t_ in ('rev2', 'loop2', 'two', 'par2'):
        for f in ('u', 'v', 'uv', 'ul', 'vl', 'ul_vl', 'u_vl', 'ul_v'):
            for m in ('full', 'begin', 'end'):
                yield from g('edges_nodes', IM, 4, topo=t_, form=f, mode=m)
    for t_ in ('rev3', 'loop3'):
        for f in ('u', 'v', 'uv'):
            yield from g('edges_nodes', IM, 6, topo=t_, form=f)
    for f in ('u', 'v', 'uv'):
        for t in ('wide10a', 'wide12b', 'wide16c'):
            yield from g('edges_nodes', IM, 6, topo=t, form=f)
    for f in ('ul', 'vl', 'u_vl', 'ul_v', 'ul_vl'):
        yield from g('edges_nodes', IM, 6, topo='wide6b', form=f, inc='default', style='int')
        yield from g('edges_nodes', IM, 6, topo='wide8b', form=f, mode='begin', inc='default', style='int')


add('P03', 'Impulse queries with nodes are exact',
    'Restricting a query of an impulse graph to a start node, an end node, lists of them, or both, with or without a '
    'time window, gives exactly the edges of the graph which have such ends and lie in the window, each one once. In '
    'directed graphs the first names where edges start and the second where they end; in undirected ones an edge '
    'counts either way round. Strings and tuples are nodes, not lists of nodes.',
    ['inputs'], 'all nodes and lists of nodes (present or not), all windows and inclusions, all edge times',
    'Query forms times window forms times node roles; the tests try single combinations on one graph.',
    IMF, [('node-first search', 'impulsegraph.py, impulsedigraph.py: edges, __edges_node_first')],
    quick, thorough, ('edges of the nodes some', 'edges of the nodes not all'),
    bounds='up to 3 edges on up to 4 nodes and one node which is not in the graph'
           '; up to 8 (thorough: 16) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for w in ('has_edge', 'has_node', 'nodes'):
        for m in MODES:
            yield from g('membership', IM, 2, topo='par2', what=w, mode=m)
        yield from g('membership', IM, 2, topo='two', what=w, mode='full', inc='default')
        yield from g('membership', IM, 2, topo='rev2', what=w, mode='full', style='str', inc='default')
        yield from g('membership', IM, 2, topo='loop2', what=w, mode='full', inc='default')
        for m in INFINITE:
            yield from g('membership', IM, 1, topo='two', what=w, mode=m)
    yield from g('membership', IM, 3, topo='par3', what='has_edge')
    yield from g('membership', IM, 4, topo='tri', what='has_node')
    yield from g('membership', IM, 3, topo='tri', what='nodes')
    for w in ('has_edge', 'has_node', 'nodes'):
        yield from g('membership', IM, 2, topo='wide8b', what=w)
    yield from g('membership', IM, 3, topo='wide20a', mode='begin', what='nodes')
    for w in ('has_edge', 'has_node', 'nodes'):
        yield from g('membership', IM, 2, topo='two', what=w, reals=True)


def thorough():
    for t_ in ('two', 'rev2', 'loop2', 'mix3', 'tri'):
        for w in ('has_edge', 'has_node', 'nodes'):
            for m in MODES:
                yield from g('membership', IM, 4, topo=t_, what=w, mode=m)
    for t in ('wide10c', 'wide12d', 'wide16e'):
        for w in ('has_edge', 'has_node', 'nodes'):
            yield from g('membership', IM, 6, topo=t, what=w)
    yield from g('membership', IM, 6, topo='wide40a', mode='end', what='nodes')


add('P04', 'Impulse graphs: membership of edges and nodes',
    'An impulse graph says it has an edge between two nodes in a window exactly when one of their edges lies in it, '
    'and that it has a node in a window exactly when an edge of the node lies in it; listing and counting the nodes '
    'agree with that. Without a window every node which was added counts, with or without edges; '
    'what cannot be a node is not in the graph.',
    ['inputs'], 'all edge times, all windows and inclusions, all pairs of nodes, present or not',
    'Yes/no answers over all positions of a window and four inclusion modes; tests probe a few.',
    IMF, [('membership', 'impulsegraph.py: has_edge, has_node, nodes, number_of_nodes; impulsedigraph.py: has_edge')],
    quick, thorough, ('has_edge True', 'has_edge False', 'has_node True', 'has_node False', 'nodes some',
                      'nodes not all'),
    bounds='2 edges, 3 for the full window (thorough: all windows), one node without edges, one node outside'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary')


def quick():
    full = dict(full=True, nodes=True, interval=True)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('nodewin', ['any', [0, 1, 2]])], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (0, 1)), ('nodewin', ['any', [0, 1]])], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('node', ['any', [0, 1, 2]])], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 0)), ('node', 0), ('add', (1, 2))], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 0)), ('add', (0, 1)), ('nodewin', 0)], **full)
    yield from g('history', IM, 3, ops=[('add', (0, 1)), ('add', (1, 2)), ('node', 1), ('readd', 0)], **full)
    yield from g('history', IM, 2, ops=[('isolated', 2), ('add', (0, 1)), ('node', 2)], **full)
    yield from g('history', IM, 2, ops=[('add', (0, 1)), ('node', 0), ('isolated', 0)], **full)
    nowin = dict(nodes=True, full=True, interval=True, window_too=False)
    for n in (0, 1):
        yield from g('history', IM, 4, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (0, 1)), ('nodewin', n)], **nowin)
    for op in (('nodefrom', ['any', [0, 1]]), ('nodeto', ['any', [0, 1]])):
        yield from g('history', IM, 1, ops=[('add', (0, 1)), ('add', (0, 1)), op], **nowin)
        yield from g('history', IM, 1, ops=[('add', (0, 1)), ('add', (1, 2)), op], **nowin)
        yield from g('history', IM, 1, ops=[('add', (0, 0)), ('add', (1, 0)), op], **nowin)
    for op in (('node', 2), ('nodewin', 2)):
        yield from g('history', IM, 1, ops=[('add', (0, 1)), op], **nowin)
    yield from g('wide_history', IM, 2, topo='wide10b', ops=[('node', ['any', [0, 2]]), ('dropall', (1, 3))])
    yield from g('wide_history', IM, 3, topo='wide6c', ops=[('nodeto', ['any', [0, 1]])])
    yield from g('wide_history', IM, 3, topo='wide20b', ops=[('node', 0), ('dropall', (1, 3))], full=False)
    for o in ('nodewin', 'nodefrom', 'nodeto'):
        yield from g('history', IM, 2, ops=[('add', (0, 1)), ('add', (1, 2)), (o, 1)], nodes=True, reals=True)


def thorough():
    full = dict(full=True, nodes=True, interval=True)
    yield from g('history', IM, 7, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (0, 2)), ('nodewin', 1)], **full)
    yield from g('history', IM, 7, ops=[('add', (0, 1)), ('add', (1, 2)), ('add', (2, 0)), ('node', ['any', [0, 1, 2]])],
                 **full)
    yield from g('history', IM, 7, ops=[('add', (0, 1)), ('add', (1, 0)), ('nodewin', 1), ('readd', 0)], **full)
    yield from g('history', IM, 7, ops=[('add', (0, 1)), ('add', (0, 1)), ('nodewin', 1), ('nodewin', 0)], **full)
    yield from g('history', IM, 4, ops=[('add', (0, 1)), ('cut', (0, 1)), ('node', 0), ('add', (0, 1))], **full)
    for t in ('wide12b', 'wide16c', 'wide20d'):
        yield from g('wide_history', IM, 6, topo=t, ops=[('node', ['any', [0, 2]]), ('node', ['any', [1, 3]])])
    for t in ('wide6b', 'wide8a'):
        for o in ('nodefrom', 'nodeto', 'nodewin'):
            yield from g('wide_history', IM, 9, topo=t, ops=[(o, 0)])
    yield from g('wide_history', IM, 7, topo='wide40b', ops=[('node', ['any', [0, 2]]), ('dropall', (1, 3))], full=False)


add('P05', 'Impulse graphs: removing a node',
    'Removing a node from an impulse graph removes the node and all of its edges; removing it within a window removes '
    'exactly its edges which lie in the window, and the node itself only when none of its edges is left. Everything '
    'else stays, and every way of asking shows the result.',
    ['histories', 'inputs'], 'all edge times, all windows and inclusions, all nodes of the stated histories',
    'Needs the combination of which edges the window hits with what every view shows afterwards.',
    IMF, [('node removal', 'impulsegraph.py: remove_node, __remove_iedge; impulsedigraph.py: remove_node')],
    quick, thorough, ('after the history, all edges some', 'after the history, all edges not all'),
    bounds='2 edges, histories of up to 4 operations; 3 edges with one removal within a window'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for m in ('full', 'begin', 'end', 'none'):
        for t_ in ('par2', 'loop2'):
            yield from g('degree', IM, 2, topo=t_, mode=m)
            for w in ('in_degree', 'out_degree'):
                yield from g('degree', ('PDG',), 2, topo=t_, which=w, mode=m)
        yield from g('degree_delta', IM, 3, topo='par2', mode=m, inc='any')
        for w in ('in_degree', 'out_degree'):
            yield from g('degree_delta', ('PDG',), 3, topo='rev2', which=w, mode=m)
        yield from g('mean_degree', IM, 2, topo='two', mode=m)
        for w in ('in_degree', 'out_degree'):
            yield from g('mean_degree', ('PDG',), 2, topo='two', which=w, mode=m)
    yield from g('degree_delta', ('PDG',), 3, topo='rev2')
    yield from g('degree', IM, 3, topo='par3')
    yield from g('degree', IM, 3, topo='looped', mode='none')
    yield from g('degree_delta', IM, 4, topo='par3', mode='none')
    yield from g('mean_degree', IM, 3, topo='tri')
    for w in ('degree',) + ('in_degree', 'out_degree'):
        yield from g('mean_degree', IM if w == 'degree' else ('PDG',), 1, topo='two', mode='none', which=w, isolated=True)
    yield from g('mean_degree', IM, 1, topo='two', inc='any')
    for w in ('in_degree', 'out_degree'):
        yield from g('mean_degree', ('PDG',), 1, topo='two', inc='any', which=w)
    yield from g('degree', IM, 2, topo='wide8a')
    yield from g('degree_delta', IM, 2, topo='wide8b')
    yield from g('mean_degree', IM, 2, topo='wide6c')
    for w in ('in_degree', 'out_degree'):
        yield from g('degree', ('PDG',), 2, topo='wide8c', which=w)
        yield from g('degree_delta', ('PDG',), 2, topo='wide6d', which=w)
    yield from g('degree', IM, 3, topo='wide20a', mode='end')
    for m in ('full', 'begin', 'end'):
        yield from g('degree', IM, 1, topo='rev2', mode=m, reals=True)
        yield from g('degree_delta', IM, 1, topo='two', mode=m, reals=True)
        yield from g('mean_degree', IM, 1, topo='two', mode=m, reals=True)


def thorough():
    for t_ in ('mix3', 'rev3', 'loop3'):
        for m in ('full', 'begin', 'end', 'none'):
            yield from g('degree', IM, 4, topo=t_, mode=m)
            yield from g('degree', ('PDG',), 4, topo=t_, which='in_degree', mode=m)
            yield from g('degree', ('PDG',), 4, topo=t_, which='out_degree', mode=m)
    for t_ in ('par3', 'rev3'):
        for m in ('none', 'full'):
            yield from g('degree_delta', IM, 8, topo=t_, mode=m)
            yield from g('degree_delta', ('PDG',), 8, topo=t_, mode=m, which='in_degree')
            yield from g('degree_delta', ('PDG',), 8, topo=t_, mode=m, which='out_degree')
    for t_ in ('tri', 'mix3', 'loop3'):
        for m in ('full', 'none'):
            yield from g('mean_degree', IM, 5, topo=t_, mode=m, inc='any')
            yield from g('mean_degree', ('PDG',), 5, topo=t_, mode=m, which='in_degree')
    for t in ('wide8d', 'wide12b', 'wide16c'):
        yield from g('degree', IM, 6, topo=t)
        yield from g('degree_delta', IM, 6, topo=t)
    yield from g('mean_degree', IM, 6, topo='wide10e')
    yield from g('degree', IM, 6, topo='wide40a', mode='begin')


add('P06', 'Impulse graphs: degrees count the edges of the window',
    'The degree of a node of an impulse graph in a window is the number of its edges in the window, split by '
    'direction for in- and out-degrees; without a node it is the mean over the nodes present in the window. The list '
    'of degrees over time has exactly the times of these edges, each once, with the number of edges at that time.',
    ['inputs'], 'all edge times, all windows, inclusions and nodes',
    'Coinciding times and window ends decide the result; tests compare a few lists.',
    IMF, [('degrees', 'impulsegraph.py: degree; impulsedigraph.py: degree, in_degree, out_degree')],
    quick, thorough, ('degree some', 'degree zero', 'delta some', 'mean'),
    bounds='2 edges; 3 edges in some windows (thorough: in all)'
           '; up to 20 (thorough: 40) edges, the order of their times given, the times and windows arbitrary', assume=['the mean is compared up to a rounding error of 2^-20'])


def quick():
    for h in ('true', 'true_u', 'key', 'key_u'):
        yield from g('attributes', IM, 2, topo='par2', how=h)
        yield from g('attributes', IM, 3, topo='two', how=h, mode='full')
        yield from g('attributes', IM, 3, topo='par2', how=h, odd=True)
    yield from g('reattr', IM, 2)
    yield from g('reattr', IM, 2, topo='rev2')
    yield from g('node_attributes', IM, 2)
    yield from g('node_attributes', IM, 1, style='str')
    yield from g('extent', IM, 2, topo='tri', drop=True)
    yield from g('extent', IM, 2, topo='par3', sort='real')
    yield from g('extent', IM, 1, topo='wide12a')


def thorough():
    for h in ('true', 'true_u', 'key', 'key_u'):
        for t_ in ('mix3', 'rev3', 'loop3'):
            yield from g('attributes', IM, 4, topo=t_, how=h)
        yield from g('attributes', IM, 4, topo='rev2', how=h, mode='begin')
    yield from g('reattr', IM, 4, topo='mix3')
    yield from g('reattr', IM, 4, topo='rev3', style='str')
    yield from g('extent', IM, 4, topo='path5', drop=True)
    yield from g('extent', IM, 3, topo='wide20b')


add('P07', 'Impulse graphs: attributes and time span',
    'Every edge and node of an impulse graph shows exactly the attributes it was given, by whichever query it is '
    'found; adding it again updates its attributes and no others, removing it forgets them, and asking for one '
    'attribute gives its value or the default. The interval of the graph runs from the earliest to the latest time of '
    'its edges.',
    ['inputs', 'histories'], 'all edge times (also coinciding ones) and windows, all choices of attribute',
    'Whether two edges are the same one depends on their times. Tests set one attribute on one edge.',
    IMF, [('edge data', 'impulsegraph.py: add_edge, edges, interval; impulsedigraph.py: add_edge, edges'),
          ('node data', 'impulsegraph.py: add_node, add_nodes_from, nodes')],
    quick, thorough, ('data=True some', 'data=key some', 'node attributes'),
    bounds='2 edges (thorough: 3), two attributes each'
           '; up to 12 (thorough: 20) edges, the order of their times given, the times and windows arbitrary')


def quick():
    yield from g('subgraph', IM, 3, topo='two')
    yield from g('subgraph', IM, 3, topo='par2')
    yield from g('subgraph', IM, 3, topo='two', odd=True, inc='default')
    yield from g('subgraph', IM, 3, topo='par2', odd=True, inc='default')
    yield from g('subgraph', IM, 3, topo='rev2', odd=True, inc='default')
    yield from g('subgraph', IM, 3, topo='rev2', inc='default')
    yield from g('subgraph', IM, 2, topo='loop2', flags=(True, True, True, True))
    for m in ('begin', 'end', 'none'):
        yield from g('subgraph', IM, 2, topo='two', mode=m, flags=(True, True, True, True), alias=True)
    yield from g('subgraph', IM, 3, topo='par3', flags=(True, True, True, True))
    yield from g('subgraph', IM, 3, topo='mix3', flags=(False, True, True, True))
    yield from g('subgraph', IM, 3, topo='par2', inc='default')
    for m in ('full', 'begin', 'end'):
        yield from g('subgraph', IM, 1, topo='two', mode=m, inc='default', flags=(True, True, True, True), alias=True)
    yield from g('subgraph', IM, 2, topo='wide8b', flags=(True, True, True, True))
    yield from g('subgraph', IM, 2, topo='wide8c', flags=(False, True, True, True))
    yield from g('subgraph', IM, 2, topo='rev2', flags=(False, False, False, False), alias=True)
    yield from g('subgraph', IM, 2, topo='two', flags=(True, True, True, True), reals=True)


def thorough():
    for t_ in ('mix3', 'rev3', 'loop3'):
        yield from g('subgraph', IM, 7, topo=t_)
    for m in ('begin', 'end', 'none'):
        for t_ in ('par2', 'rev2'):
            yield from g('subgraph', IM, 3, topo=t_, mode=m, alias=True)
    for t in ('wide10a', 'wide12b'):
        yield from g('subgraph', IM, 6, topo=t, flags=(True, True, True, True))
        yield from g('subgraph', IM, 6, topo=t, flags=(False, False, True, True))
    yield from g('subgraph', IM, 8, topo='wide6d')


add('P08', 'Impulse graphs: the static graph of a window',
    'The static graph which an impulse graph gives for a window has an edge between two nodes exactly when one of '
    'their edges lies in the window (as a multigraph, one for each such edge), has the nodes of these edges, and '
    'carries the edge attributes, times and node attributes exactly if they were asked for. It is directed exactly if '
    'the graph is, and the graph itself is not changed.',
    ['inputs', 'configurations'], 'all edge times, windows and inclusions, all 16 combinations of what to include',
    'Sixteen option combinations times four inclusions times the edges a window hits; tests use two or three.',
    IMF, [('static graph', 'impulsegraph.py: to_subgraph, to_networkx_graph; impulsedigraph.py: the same')],
    quick, thorough, ('edges', 'no edges'), bounds='2 edges; 3 edges for some combinations (thorough: all)'
           '; up to 8 (thorough: 12) edges, the order of their times given, the times and windows arbitrary',
    assume=['where several edges of a pair fall together in a simple graph, the data is that of one of them'])


def quick():
    for k in (2, 3, 4):
        yield from g('snapshots', IM, 3, topo='two', by='number', k=k)
    yield from g('snapshots', IM, 3, topo='par2', by='number', k=2, flags='any')
    yield from g('snapshots', IM, 3, topo='two', by='number', k=2, flags='any', odd=True)
    yield from g('snapshots', IM, 3, topo='tri', by='number', k=2, sort='real')
    for k in (2, 3):
        yield from g('snapshots', IM, 3, topo='two', by='length', k=k, retlen=True)
    yield from g('snapshots', IM, 3, topo='tri', by='length', k=1, flags=(True, True, True, True))
    yield from g('snapshots', IM, 3, topo='tri', by='number', k=3)
    for k in (2, 1.5):
        yield from g('snapshots', IM, 2, topo='two', by='length', k=k, sort='real', retlen=True)
    yield from g('snapshots', IM, 1, topo='two', by='length', k=1.5, sort='int')
    yield from g('snapshots', IM, 3, topo='wide6d', by='number', k=3)


def thorough():
    for k in (2, 3, 4):
        yield from g('snapshots', IM, 8, topo='path4', by='number', k=k)
    for k in (5, 6, 8):
        yield from g('snapshots', IM, 6, topo='tri', by='number', k=k)
    for k in (2, 3, 4):
        yield from g('snapshots', IM, 7, topo='rev3', by='number', k=k, flags='any')
    for k in (1, 2, 5):
        yield from g('snapshots', IM, 7, topo='mix4', by='length', k=k)
    for k in (2, 0.75):
        yield from g('snapshots', IM, 7, topo='tri', by='length', k=k, sort='real')
    for k in (1, 2, 3):
        yield from g('snapshots', IM, 6, topo='wide8a', by='number', k=k, flags=(True, True, True, True))
        yield from g('snapshots', IM, 6, topo='wide6b', by='length', k=k)


add('P09', 'Impulse graphs: splitting into snapshots of equal length',
    'Splitting an impulse graph into a number of snapshots, or into snapshots of a length, cuts its whole time span '
    'into consecutive windows of equal length, as many as asked or as needed, in order of time. Each snapshot is the '
    'static graph of its window (the last one includes the end), so every edge is in exactly one of them, with the '
    'attributes asked for, and the length reported is the one used.',
    ['inputs', 'configurations'], 'all edge times, the stated numbers and lengths of snapshots',
    'Window ends and times coincide at the cuts; tests compare one graph with fixed results.',
    IMF[:1], [('equal snapshots', 'impulsegraph.py: to_snapshots')],
    quick, thorough, ('snapshots',),
    bounds='3 edges and 2, 3 or 4 snapshots (thorough: 4 edges, up to 8 snapshots); at most 4 snapshots by length'
           '; up to 6 (thorough: 8) edges, the order of their times given, the times and windows arbitrary',
    assume=['for a number of snapshots which is not a power of two the span is a multiple of it'])


def quick():
    yield from g('snapshot_graph', IM, 3, topo='two')
    yield from g('snapshot_graph', IM, 3, topo='tri')
    yield from g('snapshot_graph', IM, 3, topo='mix3', flags=(True, True, True, True))
    yield from g('snapshot_graph', IM, 3, topo='rev2', sort='real')
    yield from g('snapshot_graph', IM, 3, topo='loop2', flags='any')
    yield from g('snapshot_graph', IM, 3, topo='two', flags='any', odd=True)
    yield from g('snapshot_graph', IM, 1, topo='wide12a')
    yield from g('snapshot_graph', IM, 1, topo='wide8d', flags=(True, True, True, True))
    yield from g('snapshot_graph', IM, 2, topo='wide20e')


def thorough():
    yield from g('snapshot_graph', IM, 8, topo='path4')
    yield from g('snapshot_graph', IM, 8, topo='par3', flags='any')
    yield from g('snapshot_graph', IM, 8, topo='rev3', flags='any')
    for t in ('wide16a', 'wide20b', 'wide20c'):
        yield from g('snapshot_graph', IM, 3, topo=t)
        yield from g('snapshot_graph', IM, 3, topo=t, flags=(False, True, False, True))
    yield from g('snapshot_graph', IM, 7, topo='wide70a')


add('P10', 'Impulse graphs: the snapshot graph shows each time exactly',
    'The snapshot graph of an impulse graph has one snapshot for every time at which there is an edge, in order of '
    'time, and no others. Its edges are exactly those of that time, with the attributes asked for and the direction '
    'of the graph.',
    ['inputs', 'configurations'], 'all edge times, every moment in time, all 16 combinations of what to include',
    'Depends on which times coincide; tests look at one example.',
    IMF[:1] + SNF, [('snapshots', 'impulsegraph.py: to_snapshot_graph; snapshotgraph.py: insert, add_snapshot')],
    quick, thorough, ('snapshot graph',), bounds='3 edges (thorough: 4)'
           '; up to 20 (thorough: 70) edges, the order of their times given, the times and windows arbitrary')


def quick():
    for c in (False, True):
        yield from g('from_networkx', ('PG',), 2, topo='two', custom=c)
        yield from g('from_networkx', ('PDG',), 2, topo='rev2', custom=c)
        yield from g('from_networkx', IM, 2, topo='par2', multi=True, custom=c)
    yield from g('from_networkx', IM, 2, topo='rev2', multi=True)
    for c in (False, True):
        yield from g('from_networkx', IM, 1, topo='one', custom=c, others=True)
        yield from g('from_networkx', IM, 1, topo='two', multi=True, custom=c, others=True)
    yield from g('from_networkx', IM, 2, topo='mix3', multi=True)
    yield from g('from_networkx', IM, 2, topo='loop3', multi=True)
    yield from g('from_networkx', IM, 2, topo='wide8b', multi=True)
    yield from g('from_networkx', IM, 2, topo='wide6c', multi=True, custom=True)
    yield from g('from_networkx', IM, 1, topo='two', reals=True)


def thorough():
    yield from g('from_networkx', IM, 5, topo='mix4', multi=True, custom=True)
    yield from g('from_networkx', ('PG',), 5, topo='tri')
    yield from g('from_networkx', ('PDG',), 5, topo='rev3')
    yield from g('from_networkx', IM, 6, topo='wide16b', multi=True)


add('P11', 'Impulse graphs: conversion from static graphs',
    'An impulse graph made from a static graph or multigraph has one edge for each of its edges, at the time named by '
    'the chosen attribute, with the other attributes and its direction; the result is of the class asked, and '
    'answers queries like a graph built by hand.',
    ['inputs'], 'all times, windows and node labels',
    'Parallel edges at coinciding times and every window; tests convert one example.',
    IMF[:1], [('conversion', 'impulsegraph.py: from_networkx_graph')],
    quick, thorough, ('edges some', 'edges by window some'), bounds='3 edges (thorough: 4)'
           '; up to 8 (thorough: 16) edges, the order of their times given, the times and windows arbitrary')


def quick():
    yield from t('roundtrip', IM, 4, topo='two')
    yield from t('roundtrip', IM, 2, topo='rev2', nodes='str', delim=';')
    yield from t('roundtrip', IM, 3, topo='one', delim=',', odd=True, nodes='str')
    yield from t('loading', IM, 3, topo='one', odd=True)
    yield from t('roundtrip', IM, 2, topo='par2', attr='num', delim=' ', sort='int')
    yield from t('roundtrip', IM, 3, topo='mix3', delim=',', attr='plain', drop=True)
    yield from t('loading', IM, 4, topo='two', order='any')
    for n in ('comments', 'marker', 'blank'):
        yield from t('loading', IM, 3, topo='two', noise=n)
    yield from t('loading', IM, 4, topo='two', delim='any', attr='choose')
    yield from t('loading', IM, 2, topo='rev2', typed=True, sort='int')
    yield from t('roundtrip', IM, 2, topo='one', nodes='word', delim=',', attr='plain')
    yield from t('roundtrip', IM, 2, topo='wide8a', delim=' ', attr='none')
    yield from t('loading', IM, 3, topo='wide8b', delim=';')


def thorough():
    yield from t('roundtrip', IM, 7, topo='mix3')
    yield from t('roundtrip', IM, 5, topo='loop3', delim='\t')
    yield from t('roundtrip', IM, 5, topo='tri', delim='||', nodes='str')
    yield from t('loading', IM, 7, topo='mix3', order='any', attr='plain')
    for n in ('comments', 'marker', 'blank'):
        yield from t('loading', IM, 5, topo='rev3', noise=n, attr='plain', delim=',')
    yield from t('loading', IM, 7, topo='mix3', delim='any', nodes='str')
    for d in (',', '|', ';'):
        yield from t('roundtrip', IM, 5, topo='wide12b', delim=d, attr='plain')


add('P12', 'Impulse graphs: text files give back the graph',
    'Saving an impulse graph as text and loading it again gives the same edges, times and attributes, for every '
    'delimiter; a file as the documentation describes it, in any order of columns, with comments, blank lines and '
    'attributes, gives exactly the edges of its lines.',
    ['inputs', 'configurations'], 'all node numbers, times and numeric attributes, all orders of columns, the listed '
    'delimiters and places of comments',
    'Column orders, delimiters and places of comments; tests read a few fixed files.',
    IMF, [('text', 'impulsegraph.py: load_from_txt, save_to_txt; impulsedigraph.py: load_from_txt')],
    quick, thorough, ('round trip, edges some', 'loading, edges some'),
    bounds='up to 3 lines; delimiters blank , ; tab || ::'
           '; up to 8 (thorough: 12) edges, the order of their times given, the times and windows arbitrary', assume=[A_TEXT])


# ======================================================================================= all interval, impulse graphs

def quick():
    for f in ('', 'u', 'v', 'uv', 'ul', 'vl'):
        yield from g('model_neutral', ALL4, 2, topo='two', form=f, inc='default')
    for f in ('', 'u', 'v'):
        yield from g('model_neutral', ALL4, 2, topo='rev2', form=f, mode='begin', inc='default', data=True)
        yield from g('model_neutral', ALL4, 2, topo='loop2', form=f, mode='end', inc='default')
    yield from g('model_neutral', IM, 2, topo='par2', form='u')
    yield from g('model_neutral', ALL4, 2, topo='rev2', form='u', style='str', inc='default')
    for f in ('', 'u', 'uv'):
        yield from g('model_neutral', IV, 2, topo='two', form=f, degenerate='all')
    yield from g('model_neutral', ALL4, 2, topo='wide8a', form='edges')
    yield from g('model_neutral', ALL4, 2, topo='two', form='edges', reals=True)


def thorough():
    for f in ('', 'u', 'v', 'uv', 'ul', 'vl', 'ul_vl'):
        for m in ('full', 'begin', 'end', 'none'):
            yield from g('model_neutral', ALL4, 3, topo='rev2', form=f, mode=m)
    for f in ('', 'u', 'v', 'uv'):
        yield from g('model_neutral', ALL4, 6, topo='rev3', form=f, inc='default')
        yield from g('model_neutral', ALL4, 6, topo='mix3', form=f, inc='default', data=True)
    for t in ('wide12b', 'wide16c'):
        yield from g('model_neutral', ALL4, 6, topo=t, form='edges')


add('X01', 'Predictive models never change an answer',
    'Giving a graph a predictive model, which only chooses the faster of two ways to answer a query, never changes '
    'the answer: whatever the model predicts, each query gives exactly the edges it gives without a model.',
    ['inputs', 'configurations'], 'all predictions of the model, all edge times, windows, nodes and inclusions',
    'The tests cannot choose what a trained regression predicts, so one of the two ways usually stays untested.',
    IVF[:2] + IMF, [('choice of the search', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, '
                     'impulsedigraph.py: edges, generate_predictive_model, __overlaps_or_contains, __in_interval')],
    quick, thorough, ('edges with a model some', 'edges with a model not all'),
    bounds='2 edges (thorough: 3)'
           '; up to 8 (thorough: 16) edges, the order of their times given, the times and windows arbitrary',
    assume=['the regression is replaced by a stub which predicts either way, or a tie; training itself is not encoded'])


def quick():
    import h_graph
    for k in ALL4:
        for c in h_graph.snapshot_calls(k, 0, 1):
            yield T('h_graph.readonly', 2, kind=k, topo='two', call=c)


def thorough():
    import h_graph
    for k in ALL4:
        for c in h_graph.snapshot_calls(k, 0, 1):
            yield T('h_graph.readonly', 4, kind=k, topo='rev2', call=c, twice=True)
            yield T('h_graph.readonly', 4, kind=k, topo='loop2', call=c)


add('X02', 'Asking a question changes nothing',
    'Queries, counts, degrees, time stamps, conversions to static and snapshot graphs, and training a model leave the '
    'graph as it was: the same edges, nodes, attributes and time span, and the same answers afterwards, also when '
    'the question was about nodes which are not in the graph.',
    ['inputs', 'histories'], 'all edge times, windows and nodes for each kind of question',
    'Needs every kind of question against the whole state of the graph; tests never look back after a query.',
    IVF[:2] + IMF, [('queries', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, impulsedigraph.py: all of the '
                     'methods which answer or convert')],
    quick, thorough, ('edges afterwards some',), bounds='2 edges, one question (thorough: asked twice)')


def quick():
    yield from g('refusals', ALL4, 2)
    yield from t('unreadable', ALL4 + SN, 1)


def thorough():
    yield from quick_x03()


quick_x03 = quick

add('X03', 'Requests without a meaning are refused and change nothing',
    'A window or an edge which ends before it begins, an edge tuple of the wrong length, an exact interval with a bound '
    'missing, contradictory or impossible numbers or lengths of snapshots, the delimiter which separates attributes, '
    'an unusable order of columns, times or nodes in a file which cannot be read, and saving an empty graph are '
    'refused with an error. The graph is the same afterwards.',
    ['inputs'], 'all windows with begin > end, all edge times, all the listed requests',
    'The tests have few requests which must fail, and do not look at the graph afterwards.',
    IVF[:2] + IMF, [('validation', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, impulsedigraph.py: edges, '
                     'has_edge, add_edge, remove_edge, add_edges_from, to_snapshots, degree, load_from_txt, '
                     'save_to_txt')],
    quick, thorough, ('refused', 'unreadable'), bounds='2 edges; files of one or two lines',
    assume=['interval graphs answer a reversed window with no nodes, or no static graph, rather than an error, where '
            'the code does so'])


def quick():
    for t_ in ('two', 'par2', 'rev2', 'loop2'):
        yield from g('batch', ALL4, 2, topo=t_)
        yield from g('batch', ALL4, 2, topo=t_, attr=False)
    yield from g('batch', ALL4, 2, topo='two', style='str', attr=False)
    yield from g('batch', ALL4, 4, topo='mix3')
    yield from g('batch', IV, 2, topo='par2', degenerate='all')
    yield from g('batch', ALL4, 4, topo='wide6a')
    yield from g('batch', ALL4, 2, topo='two', reals=True)


def thorough():
    for t_ in ('mix3', 'rev3', 'par3', 'loop3'):
        yield from g('batch', ALL4, 5, topo=t_)
    yield from g('batch', ALL4, 8, topo='wide10b')


add('X04', 'Adding edges in a batch is adding each of them',
    'Adding a list, tuple or generator of edges with common attributes gives the same graph as adding each edge with '
    'these attributes: the same edges, nodes, attributes and answers by window, also when edges repeat or are there '
    'already.',
    ['inputs', 'histories'], 'all times, coinciding ones included',
    'Repeats depend on coinciding times; shared attribute dictionaries only show after an update.',
    IVF[:2] + IMF, [('batches', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, impulsedigraph.py: '
                     'add_edges_from, add_edge')],
    quick, thorough, ('edges of the batch some',), bounds='2 edges (thorough: 3), one of them possibly present before'
           '; up to 6 (thorough: 10) edges, the order of their times given, the times and windows arbitrary')


def quick():
    import h_graph
    for how in h_graph.INDEPENDENT:
        for turn in ('result', 'graph'):
            yield from g('independent', ALL4, 2, topo='two', how=how, turn=turn)
        yield from g('independent', ALL4, 2, topo='par2', how=how, turn='result')
    for turn in ('result', 'source'):
        for mu in (False, True):
            yield from g('independent_source', ALL4, 1, turn=turn, multi=mu)
    for k in SN:
        yield T('h_snap.independent', 1, kind=k)


def thorough():
    import h_graph
    for how in h_graph.INDEPENDENT:
        for t_ in ('rev2', 'mix3'):
            for turn in ('result', 'graph'):
                yield from g('independent', ALL4, 4, topo=t_, how=how, turn=turn)


add('X05', 'Graphs made from a graph are independent of it',
    'A static graph, a list of snapshots or a snapshot graph made from an interval or impulse graph, a graph made from '
    'a static graph, and the graphs which a snapshot graph gives as directed or undirected copies, are copies: '
    'changing the edges, nodes or attributes of one of them afterwards changes neither the graph it was made from nor '
    'the other ones made with it, and changing the graph does not change them.',
    ['inputs', 'histories'], 'all edge times and windows, each way of conversion, changes on either side',
    'Shared attribute dictionaries only show when one side is changed later; tests never change a result.',
    IVF[:2] + IMF + SNF, [('conversions', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, impulsedigraph.py: '
                           'to_subgraph, to_networkx_graph, to_snapshots, to_snapshot_graph, from_networkx_graph; '
                           'snapshotgraph.py: to_directed, to_undirected')],
    quick, thorough, ('independent',), bounds='2 edges (thorough: 3); spans of 3 to 6 time units')


def quick():
    for how in ('new', 'node', 'removed', 'node removed'):
        yield from g('no_edges', ALL4, 2 if how == 'removed' else 1, how=how)


def thorough():
    for m in ('full', 'begin', 'end', 'none'):
        yield from g('degree_delta', IV, 4, topo='two', mode=m)
        yield from g('degree_delta', IM, 4, topo='two', mode=m, inc='any')


add('X06', 'A graph without edges answers every question',
    'An interval or impulse graph, directed or not, which has no edges, because none was added or because all of them '
    'were removed again, with or without nodes, answers questions for edges, nodes, degrees, changes of degree, times '
    'and subgraphs, for any window, as a graph with no edges, instead of failing; removing from it does nothing; and '
    'edges added to it afterwards are found like in any other graph.',
    ['inputs', 'histories'], 'all windows, all times of the edges which are removed or added',
    'An empty container has no first and no last element, and stale extents of removed edges show only later.',
    IVF[:2] + IMF, [('questions', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, impulsedigraph.py: edges, '
                     'nodes, has_node, has_edge, degree, in_degree, out_degree, to_subgraph, to_snapshot_graph, '
                     'remove_edge, remove_node, interval'),
                    ('tree', 'intervaltree.py: remove, begin, end')],
    quick, thorough, ('no edges',), bounds='up to 2 edges added and removed, 1 edge added afterwards')


QS = ('edges 0', 'edges 1', 'edges u 0', 'edges u 1', 'edges uv 0', 'edges uv 1', 'edges ul 0', 'edges ul 1',
      'has_edge 0', 'has_edge 1', 'has_node 0', 'has_node 1', 'nodes 0', 'nodes 1', 'number 0', 'number 1', 'degree 0',
      'degree 1', 'mean 0', 'mean 1', 'changes 0', 'changes 1', 'len', 'interval', 'static', 'networkx', 'two',
      'snapshot graph')
QS_IV = ('stamps 0', 'stamps 1')
QS_DIR = ('in 0', 'in 1', 'in mean 0', 'in mean 1', 'in changes 0', 'in changes 1')
SNAP_QS = ('all', 'get', 'degree', 'size', 'order', 'number', 'has_node', 'flags', 'copies', 'statistic', 'subgraph')


def same(cost=1, kinds=ALL4, but=(), **p):
    for k in kinds:
        for q in QS + (QS_IV if k in IV else ()) + (QS_DIR if k in ('IDG', 'PDG') else ()):
            if q not in but:
                yield from g('same_answer', (k,), cost, question=q, **p)


HEAVY = ('stamps 1', 'changes 1', 'in changes 1', 'two')


def quick():
    yield from same(2, topo='wide6a', ops=[('cutfrom', (0, 1)), ('drop', 2)])
    yield from same(1, topo='wide6c', ops=[('node', 0), ('readd', 2)])
    yield from same(1, topo='one', ops=[('dropall', (0, 1)), ('readd', 0)])
    yield from same(1, topo='wide6d', ops=[('drop', 0), ('isolated', 1)], model=True)
    yield from same(1, topo='one', ops=[('add', (1, 2)), ('drop', 0)], reals=True)
    yield from same(1, topo='two', ops=[('drop', 0)])
    yield from same(2, topo='two', ops=[('add', (0, 1)), ('drop', 0)], but=HEAVY)
    yield from same(2, topo='wide6e', ops=[('drop', 0), ('add', (0, -1))], asked='first', but=HEAVY)
    yield from same(2, topo='wide6d', ops=[('drop', ['any', [0, 1, 2]]), ('add', (0, 1))], asked='first',
                    but=('stamps 1', 'changes 1', 'in changes 1', 'two', 'snapshot graph', 'static'))
    yield from same(1, topo='wide6b', ops=[('drop', 2), ('readd', 2), ('attr', 1)], asked='first')
    yield from same(1, topo='wide6f', ops=[('isolated', -1)])
    yield from same(1, topo='wide6a', ops=[('attr', 3)])
    yield from same(1, topo='one', ops=[], asked='other')
    yield from same(2, topo='wide6a', ops=[], asked='other', but=HEAVY)
    for q in SNAP_QS:
        for o in ('insert', 'replace', 'edges', 'nodes', 'position', 'directly'):
            yield from s('same_answer', 2, op=o, question=q)
        yield from s('same_answer', 2, op='none', question=q, other=True)


def thorough():
    yield from same(3, topo='wide6b', ops=[('nodeto', 0)])
    yield from same(3, topo='wide8b', ops=[('cut', (0, 1))])
    yield from same(6, topo='two', ops=[('add', (0, 1)), ('drop', 0)])
    yield from same(8, topo='rev2', ops=[('add', (0, 1))], reals=True)
    yield from same(4, topo='par2', ops=[('drop', 1), ('add', (1, 0))])
    yield from same(2, topo='wide10b', ops=[('drop', 0), ('dropall', (0, 1)), ('drop', 6), ('node', 2)])
    yield from same(2, topo='wide8c', ops=[('dropall', (0, 1)), ('readd', 0), ('readd', 3)], asked=False)
    for q in SNAP_QS:
        for o in ('insert', 'edges', 'position'):
            yield from s('same_answer', 4, op=o, question=q, k=4, impulses='nini', chain=[2, 0, 3, 1])


add('X07', 'Answers do not depend on how a graph came about',
    'What a graph answers follows from the edges and nodes (or snapshots) which are in it now. However they came to be '
    'there, in whatever order edges and nodes were added and removed again, and whatever was asked, or which model was '
    'trained, in between, every question is answered as by a new graph to which just these are added: questions for '
    'edges, nodes, degrees and their means and changes, times and time stamps, subgraphs, snapshots, and, of snapshot '
    'graphs, for all that they answer.',
    ['histories'], 'all edge times and windows, for the listed sequences of operations, asking before each operation',
    'Anything which is kept from one answer to the next has to be forgotten by each operation; tests ask once.',
    IVF[:2] + IMF + SNF,
    [('questions', 'intervalgraph.py, intervaldigraph.py, impulsegraph.py, impulsedigraph.py, snapshotgraph.py: the '
      'methods which answer'), ('operations', 'the same files: add_edge, remove_edge, remove_node, insert, '
                                'add_edges_from, add_nodes_from')],
    quick, thorough, ('same answer',),
    bounds='up to 6 edges (thorough: 10) and up to 2 operations (thorough: 4); 2 snapshots (thorough: 4), 1 operation')


# ==================================================================================================== snapshot graphs

def s(name, cost=1, kinds=SN, **p):
    for k in kinds:
        yield T('h_snap.' + name, cost, kind=k, **p)


def quick():
    for m in ('full', 'begin', 'end', 'none', 'point', 'sbunch', 'sbunch0'):
        if m == 'point':
            continue
        yield from s('ordered', 2, k=2, mode=m)
    yield from s('ordered', 3, k=3, mode='full', impulses='none', how='insert')
    yield from s('ordered', 3, k=3, mode='full', impulses='all', how='insert')
    yield from s('ordered', 3, k=4, mode='full', impulses='none', how='ebunch', chain=True)
    yield from s('ordered', 3, k=2, mode='full', sort='real', how='graph')
    yield from s('replaced', 2, k=2)
    yield from s('refused', 1)
    yield from s('contents', 3)
    yield from s('ordered', 3, k=8, mode='full', impulses='none', how='insert', chain=True)
    yield from s('ordered', 4, k=8, mode='full', impulses='ininniin', how='insert', chain=[3, 1, 4, 0, 7, 2, 5, 6])
    yield from s('ordered', 2, k=8, mode='sbunch', impulses='none', how='graph', chain=[7, 1, 0, 3, 2, 5, 6, 4])
    yield from s('ordered', 3, k=6, mode='begin', impulses='nninin', how='ebunch', chain=[5, 4, 3, 2, 1, 0])
    for m in ('full', 'begin', 'end'):
        yield from s('ordered', 2, k=2, mode=m, reals=True, how='insert')


def thorough():
    for m in ('full', 'begin', 'end', 'sbunch'):
        yield from s('ordered', 7, k=3, mode=m, how='insert')
    yield from s('ordered', 9, k=4, mode='full', impulses='none', how='insert')
    yield from s('ordered', 5, k=6, mode='full', impulses='none', how='insert', chain=True)
    yield from s('replaced', 5, k=3)
    yield from s('contents', 12, kinds=('SDG',), k=3)
    yield from s('ordered', 6, k=12, mode='full', impulses='none', how='insert', chain=True)
    yield from s('ordered', 6, k=6, mode='full', impulses='any', how='insert', chain=[3, 1, 4, 0, 2, 5])
    yield from s('ordered', 6, k=12, mode='begin', impulses='nininnnininn', how='insert', chain=[3, 1, 4, 0, 2, 5, 11, 8, 9, 6, 7, 10])


add('S01', 'Snapshot graphs: order and retrieval by time',
    'A snapshot graph keeps its snapshots in order of time whatever the order in which they were inserted, and a '
    'snapshot inserted at the times of another replaces it. Retrieving a window gives exactly the snapshots which '
    'have a moment in it (its begin included, its end not), in order of time; retrieving by positions gives those at '
    'these positions. A snapshot made from edges has exactly these edges, parallel ones each only if a multigraph is '
    'asked for. Requests without a meaning are refused and change nothing.',
    ['inputs', 'histories'], 'all snapshot times, all windows, all orders of insertion, impulses and intervals mixed',
    'Retrieval works on the order of all snapshot times and the window; tests use snapshots in ascending order.',
    SNF, [('order', 'snapshotgraph.py: insert, add_snapshot; snapshotdigraph.py: add_snapshot'),
          ('retrieval', 'snapshotgraph.py: _get, get, __iter__, __contains__, __len__')],
    quick, thorough, ('selected', 'none selected', 'not all selected', 'replaced', 'refused', 'contents'),
    bounds='2 snapshots of any kind, 3 intervals or 3 impulses, 8 (thorough: 12) in given orders of time',
    assume=['snapshots do not overlap, and windows have begin < end'])


def quick():
    for w in ('edges', 'nodes'):
        yield from s('updates', 2, k=2, modes=('full',), what=w)
        yield from s('updates', 3, k=1, modes=('full', 'full'), what=w)
        yield from s('updates', 3, k=2, modes=('begin', 'end'), what=w)
        yield from s('updates', 3, k=2, modes=('full', 'sbunch'), what=w, chain=True)
        yield from s('updates', 3, k=2, modes=('full',), what=w, impulses='any')
        yield from s('updates', 2, k=2, modes=('none', 'sbunch'), what=w)
        yield from s('updates', 2, k=2, modes=('full',), what=w, multi=True)
    yield from s('updates', 4, k=2, modes=('full', 'full'), chain=True)
    for w in ('edges', 'nodes'):
        yield from s('updates', 3, k=5, modes=('full',), what=w, chain=[3, 1, 4, 0, 2])
        yield from s('updates', 3, k=5, modes=('full',), what=w, chain=[0, 4, 1, 3, 2], impulses='inini')
        yield from s('updates', 2, k=5, modes=('begin', 'end'), what=w, chain=True)
    yield from s('updates', 2, k=2, modes=('full',), reals=True)


def thorough():
    for w in ('edges', 'nodes'):
        yield from s('updates', 5, k=3, modes=('full',), what=w)
        yield from s('updates', 8, k=3, modes=('full', 'full'), what=w, chain=True)
        yield from s('updates', 8, k=2, modes=('full', 'full'), what=w)
        yield from s('updates', 5, k=2, modes=('end', 'begin'), what=w, sort='real')
        yield from s('updates', 8, k=1, modes=('full', 'full', 'full'), what=w)
        yield from s('updates', 8, k=3, modes=('full',), what=w, impulses='any')
    for w in ('edges', 'nodes'):
        yield from s('updates', 7, k=5, modes=('full', 'begin'), what=w, chain=True)
        yield from s('updates', 8, k=4, modes=('full', 'full'), what=w, impulses='niin', chain=[3, 1, 0, 2])
        yield from s('updates', 7, k=8, modes=('full',), what=w, impulses='niinnnin', chain=[3, 1, 0, 2, 7, 6, 4, 5])


add('S02', 'Snapshot graphs: updates hold exactly in their window',
    'Adding edges or nodes to a window of a snapshot graph adds them at exactly the moments of the window (its end '
    'not included) which a snapshot covers; at all other moments, and in all other respects, the graph is as before, '
    'even when the window begins or ends within a snapshot. The snapshots stay in order and apart from each other, '
    'and later updates of one part do not show in another.',
    ['inputs', 'histories'], 'all snapshot times, all windows of up to two updates, every moment in time',
    'Windows within snapshots split them; every moment before and after has to be compared. Tests split once.',
    SNF[:1], [('splitting', 'snapshotgraph.py: _get'), ('updates', 'snapshotgraph.py: add_edges_from, add_nodes_from')],
    quick, thorough, ('updated', 'not updated', 'split'),
    bounds='2 snapshots and up to 2 updates (thorough: 3 and 3); 5 snapshots (thorough: 8) in given orders of time',
    assume=['snapshots do not overlap, and windows have begin < end'])

METHODS = ('degree', 'size', 'order', 'number_of_nodes', 'has_node', 'is_multigraph', 'is_directed', 'to_directed',
           'to_undirected', 'statistic', 'subgraph')


def quick():
    for me in METHODS:
        yield from s('answers', 2, k=2, method=me, mode='full', impulses='none' if me in ('degree', 'subgraph')
                     else 'any')
        yield from s('answers', 2, k=2, method=me, mode='sbunch', impulses='none')
        yield from s('answers', 2, k=2, method=me, mode='begin', impulses='none')
        yield from s('answers', 2, k=2, method=me, mode='end', impulses='none')
        yield from s('answers', 1, k=2, method=me, mode='sbunch0', impulses='none')
    for me in METHODS:
        yield from s('answers', 1, k=2, method=me, mode='full', impulses='none', multi=True)
    for me in METHODS:
        yield from s('answers', 3, k=6, method=me, mode='full', impulses='nininn', chain=[3, 1, 4, 0, 2, 5])
    for me in METHODS:
        yield from s('answers', 1, k=2, method=me, mode='full', impulses='none', reals=True)


def thorough():
    for me in METHODS:
        yield from s('answers', 5, k=3, method=me, mode='full', impulses='none')
        yield from s('answers', 3, k=3, method=me, mode='sbunch', impulses='all')
        yield from s('answers', 3, k=2, method=me, mode='none')
    for me in METHODS:
        yield from s('answers', 3, k=3, method=me, mode='full', multi=True)
        yield from s('answers', 3, k=3, method=me, mode='sbunch', impulses='none', multi=True)
    for me in METHODS:
        yield from s('answers', 6, k=8, method=me, mode='full', impulses='nininnni', chain=[3, 1, 4, 0, 2, 5, 7, 6], multi=True)
        yield from s('answers', 6, k=6, method=me, mode='sbunch', impulses='nininn', chain=[5, 4, 3, 2, 1, 0])


add('S03', 'Snapshot graphs: answers are those of the snapshots',
    'Degrees, sizes, orders, node counts, node membership, direction and multigraph flags, conversions, statistics '
    'and subgraphs of a snapshot graph are, for a window or a list of positions, exactly the answers of the snapshots '
    'selected, one for each, in order. A subgraph keeps the times of its snapshots and the attributes of the graph; an '
    'empty list of positions gives an empty answer.',
    ['inputs', 'configurations'], 'all snapshot times and windows, all positions, for each method',
    'Every method has its own selection code; tests call each with one selection.',
    SNF, [('per-snapshot answers', 'snapshotgraph.py: degree, size, order, number_of_nodes, has_node, is_multigraph, '
           'is_directed, to_directed, to_undirected, compute_network_statistic, subgraph')],
    quick, thorough, ('answers', 'no answers'), bounds='2 snapshots (thorough: 3) with given contents; 6 (thorough: 8) in given orders of time')


def quick():
    for k in SN:
        yield T('h_text.snapshot_roundtrip', 3, kind=k, k=1)
        yield T('h_text.snapshot_roundtrip', 3, kind=k, k=2, delim=';', marks=('start', 'end'))
        yield T('h_text.snapshot_roundtrip', 3, kind=k, k=1, delim=';', marks=('from', 'to'), odd=True)
        yield T('h_text.snapshot_roundtrip', 3, kind=k, k=1, impulses=True, comments=True, delim=';',
                marks=('from', 'to'))


def thorough():
    for k in SN:
        yield T('h_text.snapshot_roundtrip', 5, kind=k, k=2, delim='any', marks=('t0', 't1'))
        yield T('h_text.snapshot_roundtrip', 5, kind=k, k=2, delim=';', marks='any', sort='int')
        yield T('h_text.snapshot_roundtrip', 5, kind=k, k=2, impulses=True, comments=True, delim=',',
                marks=('start', 'end'))
        yield T('h_text.snapshot_roundtrip', 9, kind=k, k=3, delim='|', marks=('start', 'end'))


add('S04', 'Snapshot graphs: text files give back the graph',
    'Saving a snapshot graph as text and loading it again gives the same snapshots: the same times, in order, and for '
    'each the same number of nodes, edges, weights and directions, for every delimiter and every marker of the times, '
    'with or without comments in the file.',
    ['inputs', 'configurations'], 'all snapshot times; the listed contents, delimiters and markers',
    'Times of any size and order and all combinations of delimiters and markers; tests load a few fixed files.',
    SNF, [('text', 'snapshotgraph.py: load_from_txt, save_to_txt')],
    quick, thorough, ('snapshots',), bounds='2 snapshots (thorough: 3) of up to 4 nodes, out of 6 contents',
    assume=[A_TEXT, 'the adjacency matrices are given ones'])


# ============================================================================================================= motifs

def m(graph, motif, cost=1, **p):
    yield T('h_motif.count', cost, graph=graph, motif=motif, **p)


PAIRS3 = [('chain', 'chain'), ('chain', 'back'), ('zero', 'fan'), ('zero', 'edge'), ('loops', 'loopout'),
          ('loops', 'loop'), ('loops', 'looptwice'), ('par', 'twice'), ('par', 'thrice'), ('tri', 'tri')]
PAIRS4 = [('chain4', 'chain'), ('tri4', 'tri'), ('back4', 'pingpong'), ('star4', 'fan'), ('text4', 'letters'),
          ('loops4', 'loopout'), ('two4', 'chain'), ('two4', 'chain3'), ('chain4', 'again'), ('back4', 'back'),
          ('star4', 'in'), ('back4', 'twice'), ('chain4', 'chainback')]
PAIRS5 = [('mix5', 'again'), ('tri5', 'tri'), ('par5', 'pingpong'), ('two5', 'chain3'), ('par5', 'thrice'),
          ('mix5', 'chain'), ('tri5', 'chain'), ('par5', 'back')]
TURNED = [('one', 'edge down'), ('chain', 'chain turned'), ('chain', 'chain down'), ('tri', 'tri turned'),
          ('zero', 'back turned'), ('text4', 'letters turned'), ('none', 'edge'), ('none', 'tri')]
ORDERED = [('same6', 'four'), ('pong6', 'pong4'), ('same6', 'thrice'), ('tri6', 'tri'), ('mix6', 'chain'),
           ('mix6', 'chainback'), ('pong6', 'pingpong')]


def quick():
    for a, b in PAIRS3:
        yield from m(a, b, choices='any' if a in ('zero', 'chain') else 'first')
    for a, b in PAIRS4:
        yield from m(a, b, 3)
    for a, b in TURNED:
        yield from m(a, b, 1)
    for a, b in ORDERED:
        yield from m(a, b, 8, ordered=True)
    for k in ('PG', 'IDG', 'SDG'):
        yield T('h_motif.refused', 1, kind=k)
    yield from m('chain', 'chain', 2, sort='real')


def thorough():
    for a, b in PAIRS5:
        yield from m(a, b, 9)
    for a, b in (('tri4', 'tri'), ('chain4', 'chain'), ('star4', 'fan')):
        yield from m(a, b, 6, choices='any')
    yield from m('chain4', 'chain', 5, sort='real')
    yield from m('pong7', 'pong4', 12, ordered=True)
    yield from m('tri6', 'tri turned', 8, ordered=True)
    yield from m('mix6', 'chain', 12, ordered=True, choices='any')


add('M01', 'Temporal motif counts are exact',
    'The number of occurrences of a motif in a directed impulse graph is exactly the number of sequences of edges at '
    'strictly increasing times, from the first to the last within the time limit, which the motif maps onto with '
    'different nodes for different positions; it is listed for exactly the sequences of nodes which occur, and the '
    'total is their sum. Other kinds of graph are refused.',
    ['inputs'], 'all edge times, coinciding ones included, and all time limits, for the listed graphs and motifs',
    'The sliding-window counting depends on all distances between times; tests check one or two fixed graphs.',
    ['dynetworkx/algorithms/count_temporal_motif.py'],
    [('counting', 'count_temporal_motif.py: count_temporal_motif, __increment_counts, __decrement_counts'),
     ('candidate subgraphs', 'count_temporal_motif.py: __enumerate_subgraphs, __extend_subgraph')],
    quick, thorough, ('occurs', 'does not occur', 'refused'),
    bounds='graphs of up to 4 edges at arbitrary times (thorough: 5), and of 6 (thorough: 7) edges in order of '
           'time; motifs of 1 to 4 edges',
    assume=['the time limit is not negative', 'node labels are the given ones'])


def quick():
    for a, b in PAIRS3 + PAIRS4 + TURNED:
        yield from m(a, b, 2, part='table')
    for a, b in ORDERED[1:4]:
        yield from m(a, b, 8, part='table', ordered=True)


def thorough():
    for a, b in PAIRS5[:5]:
        yield from m(a, b, 9, part='table')
    for a, b in PAIRS3:
        yield from m(a, b, 2, part='table', choices='any')
    for a, b in ORDERED:
        yield from m(a, b, 8, part='table', ordered=True)


add('M02', 'Motif participation counts are exact',
    'The participation table of a motif has one row for each node which takes part in an occurrence, in order, and '
    'one column for each position of the motif; each entry is exactly the number of occurrences in which the node is '
    'at the position.',
    ['inputs'], 'all edge times and time limits, for the listed graphs and motifs',
    'Follows from counts over all distances between times; tests check one table.',
    ['dynetworkx/algorithms/count_temporal_motif.py'],
    [('participation', 'count_temporal_motif.py: count_temporal_motif')],
    quick, thorough, ('occurs', 'does not occur'),
    bounds='graphs of up to 4 edges at arbitrary times (thorough: 5), and of 6 (thorough: 7) edges in order of '
           'time; motifs of 1 to 4 edges',
    assume=['the time limit is not negative', 'node labels are the given ones'])

by_id = {p.id: p for p in props}
NA = []         # properties of the code which this family cannot decide: not claimed, with the reason


def na(reason, *a, **k):
    NA.append((P(*a, quick=None, thorough=None, **k), reason))


na('Floating point: the bounds are begin + i * step in binary doubles. The machinery computes in exact arithmetic; the '
   'double-precision terms (multiplication and division of symbolic doubles, then a case distinction per edge and '
   'snapshot) are out of reach of the solvers here, so I10 and P09 claim exact spans only.',
   'N01', 'Splitting at times which are not exact in floating point',
   'Splitting a graph into snapshots at arbitrary floating-point times gives each edge to exactly the snapshots whose '
   'rounded bounds it meets, and every impulse to exactly one snapshot.',
   ['inputs'], 'all floating-point times and snapshot lengths',
   'Rounding shows at particular values only; the tests use small integers.',
   [C + 'intervalgraph.py', C + 'impulsegraph.py'],
   [('splitting', 'intervalgraph.py: to_snapshots; impulsegraph.py: to_snapshots')])
na('An asymptotic claim: it is about growth without a bound on the number of edges, and no assertion over bounded '
   'executions expresses it. (That the search tree answers correctly after rebalancing is I01 and I02.)',
   'N02', 'Window queries cost in proportion to the answer',
   'Asking for the edges of a short window takes time which grows with the logarithm of the number of edges and the '
   'size of the answer, not with the number of edges.',
   ['inputs', 'histories'], 'all graphs of any size and all windows',
   'The tests use a handful of edges and measure no cost.',
   IVF + IMF, [('balanced search tree', 'intervaltree.py: add, insert, leftRotate, rightRotate'),
               ('sorted list of impulses', 'impulsegraph.py: __search_tree')])
na('The training and the regression run inside numpy and compiled least-squares code on measured run times; neither '
   'can be executed symbolically. That a model, whatever it predicts, never changes an answer is X01.',
   'N03', 'Predictive models choose the faster way to answer',
   'A trained model picks the way of answering which is faster on the machine at hand.',
   ['inputs', 'configurations'], 'all graphs and queries',
   'It is about run times; the tests train no model.',
   IVF[:2] + IMF, [('training', 'intervalgraph.py: generate_predictive_model')])

by_id = {p.id: p for p in props}
