"""Harnesses for reading and writing text files.  Numbers in the text are symbolic: writing one gives a numeral which
stands for it, and int()/float() of that numeral, in the code under test, give it back (the conversion between a number
and its decimal numeral is Python's, and is taken as correct).  The files are real ones, in a scratch directory."""
import os
import sys
import symx
from common import *            # noqa: F401,F403
from h_graph import TOPOS, require_data


def scratch():
    """A directory of this process below the scratch directory of the run, which the runner creates and removes."""
    d = os.path.join(os.environ['VP_SCRATCH'], str(os.getpid()))
    if not os.path.isdir(d):
        os.makedirs(d)
    return d


def types(env):
    if env.symbolic:
        return symx.sym_int, symx.sym_float
    return int, float


DELIMS = [' ', ',', '\t', ';', '||', '::']


def attrs(env, style, i):
    if style == 'none':
        return {}
    if style == 'plain':
        return {'w': i + 1, 'name': 'x%d' % i}
    if style == 'num':
        return {'w': env.num('w%d' % i, 'real')}
    return [{}, {'w': 3}, {'name': 'a b'.replace(' ', '_'), 'w': 2.5}][env.choose('attr%d' % i, range(3))]


def text_data(d):
    """Attribute values which are numbers come back as floats."""
    return {k: v for k, v in d.items()}


def check_loaded(env, kind, G, ref, label):
    cls = type(new(kind))
    env.require(G.__class__ is cls, label + ': class')
    got = list(G.edges(data=True))
    env.observe('loaded', [(iv, dict(d)) for iv, d in got])
    require_edges(env, ref, [r[0] for r in got], lambda x: True, label + ', edges')
    for iv, d in got:
        require_data(env, ref, iv, d, label + ', data')
    B, E = window(env, 'full', prefix='q')
    for x, _ in ref.present():        # where a bound is one of the plain times, it is that time (and hashes like it)
        for t in x[2:]:
            if type(t) in (int, float):
                B = t if B == t else B
                E = t if E == t else E
    require_edges(env, ref, G.edges(begin=B, end=E), lambda x: ref.inwin(x, B, E), label + ', edges of a window')


ODD_TIMES = [-1e22, -3, -2.5e-07, 0, 1e-09, 0.1, 2, 1234567.875, 1e16, 10 ** 20]


def odd_times(env, n, i):
    """Times whose numerals are unusual: exponents, signs, many digits.  (The symbolic times stand for one numeral each,
    whatever it looks like; here the numerals themselves are seen by the code.)"""
    j = env.choose('odd%d' % i, range(len(ODD_TIMES) - 1))
    if n == 1:
        return (ODD_TIMES[j],)
    return ODD_TIMES[j], ODD_TIMES[env.choose('odde%d' % i, range(j + 1, len(ODD_TIMES)))]


def roundtrip(env, kind, topo, delim='any', attr='choose', nodes='sym', sort='real', drop=False, odd=False):
    ref = Ref(kind)
    G = new(kind)
    k = max(max(p) for p in TOPOS[topo]) + 1
    ns = make_nodes(env, k, 'str' if nodes == 'word' else nodes)
    times = times_of(env, kind, TOPOS[topo], sort)
    for i, (a, b) in enumerate(TOPOS[topo]):
        ts = odd_times(env, 2 if interval_kind(kind) else 1, i) if odd else times(i)
        x = (ns[a], ns[b]) + ts
        for y, _ in ref.present():
            env.assume(NOT(AND(ref.between(y, x[0], x[1]), EQ(x[2:], y[2:]))))
        d = attrs(env, attr, i)
        G.add_edge(*x, **d)
        ref.add(x, **d)
    if drop:
        x = ref.items[0][0]
        G.remove_edge(x[0], x[1])
        ref.remove_where(lambda y: ref.between(y, x[0], x[1]))
    dl = env.choose('delimiter', DELIMS) if delim == 'any' else delim
    path = os.path.join(scratch(), 'g.txt')
    kw = {} if dl == ' ' else {'delimiter': dl}
    G.save_to_txt(path, **kw)
    require_edges(env, ref, G.edges(), lambda x: True, 'the graph after saving', False)
    if nodes == 'str':
        kw['nodetype'] = str
    H = G.__class__.load_from_txt(path, **kw)
    check_loaded(env, kind, H, ref, 'round trip')


import itertools  # noqa: E402

ORDERS4 = list(itertools.permutations(('u', 'v', 'begin', 'end')))
ORDERS3 = list(itertools.permutations(('u', 'v', 't')))
DUR = [p for w in ('begin', 'end') for p in itertools.permutations(('u', 'v', w))]


def loading(env, kind, topo, order='default', delim=' ', noise='none', attr='none', nodes='sym', sort='real', dur=3,
            typed=False, odd=False):
    """A file as the documentation describes it gives exactly the edges of its lines."""
    iv = interval_kind(kind)
    INT, FLOAT = types(env)
    ref = Ref(kind)
    lines = []
    kw = {}
    if order == 'any':
        od = env.choose('order', ORDERS4 if iv else ORDERS3)
        kw['order'] = od
    elif order == 'duration':
        od = env.choose('order', DUR)
        kw['order'] = od + (dur,)
    else:
        od = ('u', 'v', 'begin', 'end') if iv else ('u', 'v', 't')
    dl = env.choose('delimiter', DELIMS) if delim == 'any' else delim
    if dl != ' ':
        kw['delimiter'] = dl
    k = max(max(p) for p in TOPOS[topo]) + 1
    ns = make_nodes(env, k, nodes)
    tm = times_of(env, kind, TOPOS[topo], sort)
    for i, (a, b) in enumerate(TOPOS[topo]):
        f = {'u': ns[a], 'v': ns[b]}
        if order == 'duration':
            t = env.num('b%d' % i, sort)
            if 'begin' in od:
                f['begin'], times = t, (t, t + dur)
            else:
                f['end'], times = t, (t - dur, t)
        elif iv:
            times = odd_times(env, 2, i) if odd else tm(i)
            f['begin'], f['end'] = times
        else:
            times = odd_times(env, 1, i) if odd else tm(i)
            f['t'] = times[0]
        x = (ns[a], ns[b]) + tuple(times)
        for y, _ in ref.present():
            env.assume(NOT(AND(ref.between(y, x[0], x[1]), EQ(x[2:], y[2:]))))
        d = attrs(env, attr, i)
        ref.add(x, **d)
        lines.append(dl.join([str(f[c]) for c in od] + ['%s=%s' % kv for kv in d.items()]))
    mark = '#'
    if noise in ('comments', 'marker'):
        if noise == 'marker':
            mark = env.choose('mark', ['%', '//'])
            kw['comments'] = mark
        where = env.choose('where', ['first', 'last', 'trailing', 'indented', 'every'])
        if where == 'first':
            lines.insert(0, mark + ' 1 2 3 4')
        elif where == 'last':
            lines.append(mark)
        elif where == 'trailing':
            lines[0] = lines[0] + ' ' + mark + ' 5 6'
        elif where == 'indented':
            lines.insert(1, '   ' + mark + 'x')
        else:
            lines = [y for line in lines for y in (mark + 'c', line)]
    elif noise == 'blank':
        where = env.choose('where', ['first', 'last', 'middle', 'spaces'])
        if where == 'first':
            lines.insert(0, '')
        elif where == 'last':
            lines.append('')
        elif where == 'middle':
            lines.insert(1, '')
        else:
            lines.insert(1, '    ')
    path = os.path.join(scratch(), 'l.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + env.choose('eof', ['\n', '']))
    if nodes == 'str':
        kw['nodetype'] = str
    if typed:
        kw['nodetype'] = FLOAT
        kw['intervaltype' if iv else 'timestamptype'] = INT
    G = new(kind).__class__.load_from_txt(path, **kw)
    check_loaded(env, kind, G, ref, 'loading')


DATASETS = [({'w': 1}, {'w': 2}), ({}, {'w': 1}), ({'w': 1}, {'w': 1, 'c': 'x'}), ({'c': 'x', 'w': 1}, {'c': 'x'}),
            ({'w': 1}, {'c': 1}), ({'w': 1}, {'w': 'x'})]


def merging(env, kind, topo, grace=1, data='same', nodes='sym'):
    """merge=(True, g): lines of the same pair and data whose gap is at most g become one edge, and no others do."""
    INT, FLOAT = types(env)
    ns = make_nodes(env, max(max(p) for p in TOPOS[topo]) + 1, nodes)
    lines, rows = [], []
    sets = env.choose('sets', DATASETS) if data == 'sets' else DATASETS[0]
    for i, (a, b) in enumerate(TOPOS[topo]):
        t0, t1 = env.num('b%d' % i), env.num('e%d' % i)
        env.assume(t0 < t1)
        grp = 0 if data == 'same' else env.choose('data%d' % i, [0, 1])
        if data == 'same':
            d = rows[0][5] if rows else env.choose('common', [{}, {'w': 1}])
        else:
            d = sets[grp]
        rows.append((ns[a], ns[b], t0, t1, grp, d))
        lines.append(' '.join([str(ns[a]), str(ns[b]), str(t0), str(t1)] + ['%s=%s' % kv for kv in d.items()]))
    ref = Ref(kind)

    def pair(r, s):
        return (r[0] == s[0] and r[1] == s[1]) or (not directed(kind) and r[0] == s[1] and r[1] == s[0])
    for i, r in enumerate(rows):
        for s in rows[:i]:
            if pair(r, s) and r[4] != s[4]:
                env.assume(NOT(EQ(r[2], s[2])))     # the same interval with other data replaces the data instead
    # connected components of the relation "same pair, same data, gap at most grace"
    comp = list(range(len(rows)))
    for i, r in enumerate(rows):
        for j, s in enumerate(rows[:i]):
            if pair(r, s) and r[4] == s[4] and bool(AND(r[2] - s[3] <= grace, s[2] - r[3] <= grace)):
                a, b = comp[i], comp[j]
                comp = [b if c == a else c for c in comp]
    want = []
    for c in sorted(set(comp)):
        mine = [r for r, k in zip(rows, comp) if k == c]
        lo, hi = mine[0][2], mine[0][3]
        for r in mine[1:]:
            lo = ITE(r[2] < lo, r[2], lo)
            hi = ITE(r[3] > hi, r[3], hi)
        want.append((mine[0][0], mine[0][1], lo, hi, mine[0][5]))
        env.cover('merged' if len(mine) > 1 else 'alone')
    path = os.path.join(scratch(), 'm.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    kw = {'merge': (True, grace)}
    kw['intervaltype'] = env.choose('type', [INT, FLOAT])
    G = new(kind).__class__.load_from_txt(path, **kw)
    got = list(G.edges(data=True))
    env.observe('merged', [(frozenset(iv[:2]), iv[2:], dict(d)) for iv, d in got])
    env.require(len(got) == len(want), 'number of edges after merging')
    for iv, d in got:
        env.require(OR([AND(EQ(iv[2:], w[2:4]), EQ(dict(d), w[4])) for w in want if pair(iv, w)]),
                    'an edge which is not a maximal run of lines')
    for w in want:
        env.require(OR([AND(EQ(iv[2:], w[2:4]), EQ(dict(d), w[4])) for iv, d in got if pair(iv, w)]),
                    'a maximal run of lines is missing')
    T0, T1 = window(env, 'full', prefix='q')
    gw = list(G.edges(begin=T0, end=T1))
    cond = lambda x: OR(AND(x[2] < T1, x[3] > T0), EQ(x[2], T0))
    env.require(EQ(COUNT([cond(w) for w in want]), len(gw)), 'number of edges of a window after merging')


# ------------------------------------------------------------------------------------------------ snapshot graphs

CONTENT = [[(0, 1)], [(0, 1), (1, 2)], [(1, 0, 2.5), (0, 0, 3)], [(2, 0, 12)],
           [(0, 1, 1234567.0), (2, 0, -0.1), (1, 2, 1e-12)], [(0, 1, 1 / 3), (1, 1, 2 ** 53 - 1), (2, 1, 1e300)]]


def snapshot_roundtrip(env, kind, k, delim='any', marks='any', sort='real', comments=False, impulses=False, odd=False):
    nx = sys.modules['networkx']
    S = new(kind)
    rows = []
    for i in range(k):
        imp = impulses and env.flag('imp%d' % i)
        if odd:
            s, e = odd_times(env, 2, i)
        else:
            s = env.num('s%d' % i, sort)
            e = s if imp else env.num('e%d' % i, sort)
        if imp:
            e = s
        else:
            env.assume(s < e)
        for r in rows:
            env.assume(NOT(AND(EQ(r[0], s), EQ(r[1], e))))
        g = (nx.DiGraph if directed(kind) else nx.Graph)()
        g.add_nodes_from(range(env.choose('nodes%d' % i, [0, 4])))      # with or without isolated nodes
        for t in CONTENT[env.choose('content%d' % i, range(len(CONTENT)))]:
            if len(t) == 3:
                g.add_edge(t[0], t[1], weight=t[2])
            else:
                g.add_edge(*t)
        S.insert(g, start=s, end=e)
        rows.append((s, e, g))
    dl = env.choose('delimiter', [';', ',', '|', '//']) if delim == 'any' else delim
    st, en = env.choose('marks', [('start', 'end'), ('from', 'to'), ('t0', 't1')]) if marks == 'any' else marks
    kw = {}
    if dl != ';':
        kw['delimiter'] = dl
    if st != 'start':
        kw.update(start=st, end=en)
    path = os.path.join(scratch(), 's.txt')
    S.save_to_txt(path, **kw)
    if comments:
        with open(path) as f:
            lines = f.read().split('\n')
        mark = env.choose('mark', ['#', '%'])
        if mark != '#':
            kw['comments'] = mark
        lines = [mark + ' 0 1;1 0 start=1 end=2', '', '  ' + mark + ' x', lines[0] + ' ' + mark + ' x', ' '] + \
            lines[1:-1] + [mark, '']
        with open(path, 'w') as f:
            f.write('\n'.join(lines))
    H = S.__class__.load_from_txt(path, **kw)
    env.require(H.__class__ is S.__class__, 'class')
    got = list(H.snapshots.items())
    env.observe('times', [key for key, g in got])
    env.require(len(got) == k and len(H) == k, 'number of snapshots')
    for a, b in zip(got, got[1:]):
        env.require(OR(a[0][0] < b[0][0], AND(EQ(a[0][0], b[0][0]), a[0][1] < b[0][1])), 'order of the snapshots')
    for s, e, g in rows:
        env.require(OR([EQ(key, (s, e)) for key, h in got]), 'a snapshot is missing')
        for key, h in got:
            here = EQ(key, (s, e))
            num = {n: i for i, n in enumerate(g)}
            env.require(IMPLIES(here, h.number_of_nodes() == len(num)), 'number of nodes')
            w1 = {(num[u], num[v]): float(d.get('weight', 1)) for u, v, d in g.edges(data=True)}
            w2 = {(u, v): float(d.get('weight', 1)) for u, v, d in h.edges(data=True)}
            if not directed(kind):
                w1 = {frozenset(p): w for p, w in w1.items()}
                w2 = {frozenset(p): w for p, w in w2.items()}
            env.require(IMPLIES(here, h.is_directed() == directed(kind) and w1 == w2), 'edges of a snapshot')
    env.cover('snapshots')


# ------------------------------------------------------------------------------------------------ refusals

def unreadable(env, kind):
    """A file with a time or a node which cannot be read, or an impossible layout, is refused."""
    if kind in ('SG', 'SDG'):
        s, e = env.num('s', 'real'), env.num('e', 'real')
        env.assume(s < e)
        good = '0 1;1 0 start=%s end=%s' % (s, e)
        bad = {'no end': ('0 1;1 0 start=%s' % s, {}), 'no begin': ('0 1;1 0 end=%s' % e, {}),
               'no number': ('0 1;1 0 start=%s end=soon' % s, {}), 'reversed': ('0 1;1 0 start=%s end=%s' % (e, s), {}),
               'blank': (good, {'delimiter': ' '}), 'newline': (good, {'delimiter': '\n'})}
        err = ValueError
    else:
        x = [env.num('n', 'int')] * 2 + list(edge_times(env, kind, 0, 'real'))
        good = ' '.join(str(y) for y in x)
        rev = ' '.join(str(y) for y in x[:2] + [x[-1], x[-2]])
        bad = {'time': (' '.join(str(y) for y in x[:-1] + ['soon']), {}),
               'node': (' '.join(str(y) for y in ['a'] + x[1:]), {'nodetype': types(env)[1]}),
               'node v': (' '.join(str(y) for y in x[:1] + ['a'] + x[2:]), {'nodetype': types(env)[1]}),
               'delimiter': (good, {'delimiter': '='}),
               'order': (good, {'order': ('u', 'u', 'x', 'y')}), 'short order': (good, {'order': ('u', 'v')}),
               'long order': (good, {'order': ('u', 'v', 'begin', 'end', 't')})}
        names = ['u', 'v', 'begin', 'end'] if len(x) == 4 else ['u', 'v', 't']
        for i in range(len(names)):       # a column is missing, another is there twice or unknown
            if len(x) == 4 and i >= 2:
                continue                  # (a number in place of begin or end is a duration)
            bad['order %d unknown' % i] = (good, {'order': tuple(names[:i] + ['x'] + names[i + 1:])})
            bad['order %d twice' % i] = (good, {'order': tuple(names[:i] + [names[i - 1]] + names[i + 1:])})
        if len(x) == 4:
            bad['order no times'] = (good, {'order': ('u', 'v', 'x', 'y')})
            bad['reversed'] = (rev, {})
            bad['begin'] = (' '.join(str(y) for y in x[:2] + ['soon', x[3]]), {})
        err = (TypeError, ValueError, sys.modules['networkx'].NetworkXError)
    what = env.choose('what', sorted(bad))
    line, kw = bad[what]
    path = os.path.join(scratch(), 'bad.txt')
    with open(path, 'w') as f:
        f.write('\n'.join([good, line, ''] if env.flag('after a good line') else [line]))
    try:
        G = new(kind).__class__.load_from_txt(path, **kw)
    except err:
        env.cover('unreadable')
    else:
        env.require(False, 'not refused: ' + what)
