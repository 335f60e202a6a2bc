"""Harness for counting temporal motifs: the static graph and the motif are given, all times and delta are arbitrary."""
import itertools
import random
import sys
from common import *            # noqa: F401,F403

GRAPHS = {
    'none': [],
    'one': [(1, 2)],
    'chain': [(1, 2), (2, 3), (2, 1)],
    'zero': [(0, 1), (1, 0), (0, 2)],
    'tri': [(1, 2), (2, 3), (3, 1)],
    'par': [(2, 1), (2, 1), (2, 1)],
    'loops': [(1, 1), (1, 2), (1, 1)],
    'chain4': [(1, 2), (2, 3), (1, 2), (2, 3)],
    'tri4': [(3, 1), (1, 2), (2, 3), (1, 2)],
    'back4': [(1, 2), (2, 1), (1, 2), (2, 1)],
    'star4': [(5, 0), (5, 3), (3, 5), (5, -1)],
    'text4': [('a', 'b'), ('b', 'c'), ('a', 'b'), ('c', 'a')],
    'loops4': [(1, 1), (1, 2), (2, 2), (2, 1)],
    'two4': [(1, 2), (3, 4), (2, 3), (4, 1)],
    'mix5': [(1, 2), (2, 3), (1, 2), (2, 3), (3, 1)],
    'tri5': [(1, 2), (2, 3), (3, 1), (1, 2), (2, 3)],
    'par5': [(1, 2), (1, 2), (2, 1), (1, 2), (2, 1)],
    'two5': [(1, 2), (3, 4), (2, 3), (4, 1), (2, 4)],
    'same6': [(1, 2)] * 6,
    'pong6': [(1, 2), (2, 1)] * 3,
    'pong7': [(1, 2), (2, 1)] * 3 + [(1, 2)],
    'tri6': [(1, 2), (2, 3), (3, 1)] * 2,
    'mix6': [(1, 2), (1, 2), (2, 3), (2, 1), (2, 3), (3, 2)],
}

MOTIFS = {
    'edge': ((1, 2),),
    'loop': ((1, 1),),
    'twice': ((1, 2), (1, 2)),
    'back': ((1, 2), (2, 1)),
    'chain': ((1, 2), (2, 3)),
    'fan': ((1, 2), (1, 3)),
    'in': ((1, 2), (3, 2)),
    'loopout': ((1, 1), (1, 2)),
    'looptwice': ((1, 1), (1, 1)),
    'tri': ((1, 2), (2, 3), (3, 1)),
    'chainback': ((1, 2), (2, 3), (2, 1)),
    'thrice': ((1, 2), (1, 2), (1, 2)),
    'pingpong': ((1, 2), (2, 1), (1, 2)),
    'letters': (('x', 'y'), ('y', 'z')),
    'chain3': ((1, 2), (2, 3), (3, 4)),
    'again': ((1, 2), (2, 3), (1, 2)),
    'four': ((1, 2), (1, 2), (1, 2), (1, 2)),
    'pong4': ((1, 2), (2, 1), (1, 2), (2, 1)),
    'edge down': ((7, 2),),
    'chain down': ((2, 1), (1, 3)),
    'chain turned': ((3, 1), (1, 2)),
    'tri turned': ((3, 1), (1, 2), (2, 3)),
    'back turned': ((2, 1), (1, 2)),
    'letters turned': (('y', 'x'), ('x', 'z')),
}


def maps_onto(motif, edges):
    """The node map of the motif onto these edges, or None."""
    m = {}
    for (a, b), (u, v) in zip(motif, edges):
        for x, y in ((a, u), (b, v)):
            if m.setdefault(x, y) != y:
                return None
    if len(set(m.values())) != len(m):
        return None
    return m


def count(env, graph, motif, part='count', choices='first', sort='int', delta='any', ordered=False):
    """ordered: the edges come in the order of their times (several may be at the same time)."""
    D = dnx()
    G = D.ImpulseDiGraph()
    es = []
    for i, (u, v) in enumerate(GRAPHS[graph]):
        t = env.num('t%d' % i, sort)
        for a, b, s in es:
            if (a, b) == (u, v):
                env.assume(NOT(EQ(s, t)))
        if ordered and es:
            env.assume(es[-1][2] <= t)
        es.append((u, v, t))
        G.add_edge(u, v, t)
    if delta == 'any':
        dl = env.num('delta', sort)
        env.assume(dl >= 0)
    else:
        dl = delta
    made = [0]

    def choice(xs):
        xs = sorted(xs)
        if choices == 'first':
            return xs[0]
        made[0] += 1
        return env.choose('rc%d' % made[0], xs)
    env.patch(random, 'choice', choice)
    seq = MOTIFS[motif]
    total, counts, table = D.count_temporal_motif(G, seq, dl)
    total = int(total)
    counts = {k: int(c) for k, c in counts.items()}
    env.observe('counts', counts)
    want = {}
    for tup in itertools.permutations(es, len(seq)):
        if maps_onto(seq, [x[:2] for x in tup]) is None:
            continue
        key = tuple(n for x in tup for n in x[:2])
        c = AND([x[2] < y[2] for x, y in zip(tup, tup[1:])], tup[-1][2] - tup[0][2] <= dl)
        want.setdefault(key, []).append(c)
    for key, c in counts.items():
        env.require(EQ(COUNT(want.get(key, [])), c), 'number of occurrences of a sequence of edges')
        env.require(c > 0, 'a sequence which does not occur is listed')
    for key, cs in want.items():
        if key not in counts:
            env.require(NOT(OR(cs)), 'a sequence which occurs is not listed')
    env.require(total == sum(counts.values()), 'total')
    env.cover('occurs' if total else 'does not occur')
    if part == 'table':
        pos = []
        for e in seq:
            for n in e:
                if n not in pos:
                    pos.append(n)
        env.require(list(table.columns) == pos, 'columns of the participation table')
        rows = list(table.index)
        env.require(rows == sorted(set(rows)), 'rows of the participation table')
        involved = {n for key in counts for n in key}
        env.require(set(rows) == involved, 'nodes of the participation table')
        got = {(n, p): int(table.at[n, p]) for n in rows for p in pos}
        env.observe('table', got)
        for n in sorted(involved):
            for p in pos:
                cs = [c for key, l in want.items()
                      if maps_onto(seq, list(zip(key[::2], key[1::2])))[p] == n for c in l]
                env.require(EQ(COUNT(cs), got[n, p]), 'participation of a node at a position')


def refused(env, kind):
    D = dnx()
    G = new(kind)
    if kind[0] == 'S':
        G.add_snapshot([(1, 2)], start=env.num('b'), end=env.num('b') + 1)
    else:
        G.add_edge(1, 2, *([env.num('b')] + ([env.num('b') + 1] if interval_kind(kind) else [])))
    try:
        D.count_temporal_motif(G, ((1, 2),), 3)
    except TypeError:
        env.cover('refused')
    else:
        env.require(False, 'a graph of another class is accepted')
