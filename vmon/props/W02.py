import random
from vmon import ref, view, crys, families as F

TITLE = 'Crystal operators on tableaux make the tableaux of a shape a normal crystal'
RULE = ('setvalued: all (set-valued) semistandard tableaux of a shape: operators stay inside, are inverse to each other, string lengths '
        'are differences of weights, components have one highest weight and a Schur character; multiset: the same for multiset-valued '
        'tableaux with a given number of letters; generator: the elements, edges, strings, components and drawings of a crystal '
        'generator; large: the strings through random tableaux of larger shapes. Non-trivial = at least one edge.')
REQUIRED = {'tableau': 1500, 'edge': 1000, 'crystal': 40, 'large': 600, 'generator': 15}
ROUNDS = (24, 60)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 302)
    size = 4 if not deep else 5
    steps = []
    for lam in ref.partitions_upto(size):
        for n in (2, 3) + ((4,) if sum(lam) <= 3 else ()):
            if len(lam) <= n:
                steps.append(('setvalued', lam, n, False))
                if sum(lam) <= (3 if not deep else 4) and n < 4:
                    steps.append(('setvalued', lam, n, True))
        for n in (2, 3):
            if 0 < len(lam) <= n and sum(lam) <= 4:
                for extra in (0, 1, 2) + ((3,) if deep else ()):
                    if sum(lam) + extra <= (5 if not deep else 6):
                        steps.append(('multiset', lam, n, extra))
    for lam in ref.partitions_upto(3):
        for n in (2, 3):
            if len(lam) <= n:
                steps.append(('generator', lam, n, False))
                if sum(lam) < 3 or (deep and n < 3):
                    steps.append(('generator', lam, n, True))
    for lam, n, sets in (((1,), 5, False), ((1,), 6, False), ((1,), 5, True), ((2,), 5, False), ((1, 1), 5, False), ((3,), 5, False), ((3, 1), 5, False), ((2, 2), 5, False),
                         ((2, 1), 5, False), ((4, 2), 3, False), ((1, 1), 4, True), ((), 5, False), ((2, 1, 1), 5, False)):
        if deep or n < 5 or sum(lam) < 2 or rng.random() < .5:
            steps.append(('generator', lam, n, sets))
    steps += [('large', rng.randrange(10 ** 9)) for _ in range(60)]
    rng.shuffle(steps)
    return F.split(steps, 16)


def common(ctx, fills, n, multi, what, **kw):
    from tableaux import Tableau
    index = {t: k for k, t in enumerate(fills)}
    edges, edges_e = [], []
    for t in fills:
        tab = Tableau(dict(t))
        for i in range(1, n):
            for name, op, out in (('f', tab.f_crystal_operator, edges), ('e', tab.e_crystal_operator, edges_e)):
                u = op(i, multisetvalued=multi)
                if u is None:
                    continue
                got = frozenset(view.tab(u).items())
                ctx.check(got in index, '%s_%d leaves the %s' % (name, i, what), tableau=dict(t), image=dict(got), **kw)
                out.append((index[t], index[got], i) if name == 'f' else (index[got], index[t], i))
                ctx.ev('edge', (what, name, i, t))
            if multi:
                ctx.equal((tab.f_crystal_operator(i), tab.e_crystal_operator(i)),
                          (tab.f_crystal_operator(i, True), tab.e_crystal_operator(i, True)), 'default kind of crystal operator')
        ctx.equal(frozenset(view.tab(tab).items()), t, 'the tableau changed')
        ctx.ev('tableau', (what, n, t))
    ctx.equal(sorted(edges), sorted(edges_e), 'f and e are not inverse to each other on the %s' % what, **kw)
    weights = [crys.weight(dict(t), n) for t in fills]
    crys.check_normal(ctx, len(fills), n, weights, edges, what, **kw)
    ctx.ev('crystal', (what, n, kw), trivial=not edges)


def setvalued(ctx, lam, n, sets):
    fills = ref.fillings(ref.cells(lam), n, setvalued=sets)
    common(ctx, fills, n, False, 'set-valued tableaux' if sets else 'semistandard tableaux', lam=lam)
    if not sets:
        common(ctx, fills, n, True, 'semistandard tableaux', lam=lam)


def multiset(ctx, lam, n, extra):
    fills = crys.multiset_fillings(ref.cells(lam), n, sum(lam) + extra)
    common(ctx, fills, n, True, 'multiset-valued tableaux', lam=lam, extra=extra)


def drawings(ctx, g, cls, labels, edges, comps):
    """Drawings of the whole crystal and of its components, written to the scratch directory."""
    import os
    import re
    import crystals
    base = os.environ['VMON_SCRATCH'] + '/dot%d/' % os.getpid()
    for root in ('', 'dot/', 'png/'):
        for sub in ('', 'sets/', 'multisets/'):
            for leaf in ('', 'symplectic/', 'orthogonal/', 'urt/', 'mrt/', 'mrt_sp/'):
                os.makedirs(base + root + sub + leaf, exist_ok=True)
    calls = []

    class Recorder:
        @staticmethod
        def run(args, *rest, **kw):
            calls.append(list(args))
    keep = crystals.subprocess
    crystals.subprocess = Recorder
    try:
        g.DIRECTORY = base
        g.generate()
    finally:
        crystals.subprocess = keep
    drawn = []
    for args in calls:
        f = [a for a in args if a.endswith('.dot')][0]
        text = open(f).read()
        found = sorted(re.findall(r'    "([^"]*)" -> "([^"]*)" \[label="([^"]*)"\];', text))
        drawn.append(found)
    want = [sorted((labels[x], labels[y], str(i)) for x, y, i in edges if x in c) for c in comps + [set(range(len(labels)))]]
    ctx.equal(sorted(drawn), sorted(want), 'drawings of the crystal')


def check_generator(ctx, g, n, index_of, step, what, draw=True, **kw):
    """Edges, strings, components and drawings of a generator; step(x, i) gives the expected head or None."""
    size = len(g)
    want = sorted((x, y, i) for x in range(size) for i in range(1, n) for y in [step(x, i)] if y is not None)
    edges = list(g.edges)
    ctx.equal(sorted(edges), want, 'edges of %s' % what, **kw)
    ctx.equal(sorted(g.edges), want, 'edges of %s when read again' % what, **kw)
    parent = {x: {x} for x in range(size)}
    for x, y, i in want:
        if parent[x] is not parent[y]:
            parent[x] |= parent[y]
            for z in parent[y]:
                parent[z] = parent[x]
    comps = {frozenset(c) for c in parent.values()}
    got = [frozenset(c) for c in g.components]
    ctx.equal(len(got), len(set(got)), 'repeated component')
    ctx.equal(set(got), comps, 'components of %s' % what, **kw)
    f = {(x, i): y for x, y, i in want}
    e = {(y, i): x for x, y, i in want}
    for i in range(1, n):
        strings = []
        for x in range(size):
            if (x, i) not in e:
                s = [x]
                while (s[-1], i) in f:
                    s.append(f[(s[-1], i)])
                strings.append(tuple(s))
        ctx.equal(sorted(tuple(s) for s in g.istrings(i)), sorted(strings), '%d-strings of %s' % (i, what), **kw)
    if draw:
        drawings(ctx, g, type(g), [g.node_label(x) for x in range(size)], want, [set(c) for c in comps])
    ctx.ev('generator', (what, kw), trivial=not want)
    return want


def generator(ctx, lam, n, sets):
    from crystals import TableauCrystalGenerator
    g = TableauCrystalGenerator(lam, n, setvalued=sets)
    els = [frozenset(view.tab(g[x]).items()) for x in range(len(g))]
    ctx.equal(len(els), len(set(els)), 'repeated element')
    fills = ref.fillings(ref.cells(lam), n, setvalued=sets)
    ctx.equal(set(els), set(fills), 'elements of the tableau crystal', lam=lam, letters=n, setvalued=sets)
    index = {t: k for k, t in enumerate(els)}

    def step(x, i):
        u = g[x].f_crystal_operator(i, multisetvalued=False)
        return None if u is None else index[frozenset(view.tab(u).items())]
    edges = check_generator(ctx, g, n, index, step, 'the tableau crystal', lam=lam, letters=n, setvalued=sets)
    crys.check_normal(ctx, len(g), n, [crys.weight(dict(t), n) for t in els], edges, 'the tableau crystal', lam=lam)


def random_filling(rng, lam, n, sets, multi):
    cells = {}
    for i, j in sorted(ref.cells(lam)):
        height = sum(1 for a in lam if a >= j)
        low = max(cells[(i, j - 1)][-1] if j > 1 else 1, cells[(i - 1, j)][-1] + 1 if i > 1 else 1)
        high = n - (height - i)
        v = [low if rng.random() < .5 else rng.randrange(low, high + 1)]
        while (sets or multi) and rng.random() < .3:
            v.append(rng.randrange(v[-1] if multi else v[-1] + 1, high + 1) if v[-1] + (not multi) <= high else v[-1])
            if not multi and v[-1] == v[-2]:
                v.pop()
        cells[(i, j)] = tuple(v)
    return cells


def legal(cells, multi):
    for (i, j), v in cells.items():
        if any(a > b or (a == b and not multi) for a, b in zip(v, v[1:])) or v[0] < 1:
            return False
        if (i, j + 1) in cells and v[-1] > cells[(i, j + 1)][0] or (i + 1, j) in cells and v[-1] >= cells[(i + 1, j)][0]:
            return False
    return True


def large(ctx, salt):
    """Single tableaux of larger shapes with more letters: strings through them."""
    from tableaux import Tableau
    rng = random.Random(salt)
    lam = tuple(sorted((rng.randrange(1, 7) for _ in range(rng.randrange(1, 6))), reverse=True))
    n = len(lam) + rng.randrange(1, 8)
    sets, multi = rng.choice(((False, False), (True, False), (False, True)))
    cells = random_filling(rng, lam, n, sets, multi)
    if not legal(cells, multi):
        raise Exception('harness: illegal filling %r' % cells)
    start = Tableau(cells)
    for i in range(1, n):
        lengths = []
        for name, step in (('f', 1), ('e', -1)):
            t, c, k = start, cells, 0
            while True:
                u = (t.f_crystal_operator if step == 1 else t.e_crystal_operator)(i, multisetvalued=multi)
                if u is None:
                    break
                d = view.tab(u)
                ctx.check(set(d) == set(cells) and legal(d, multi), '%s_%d gives a tableau that is not semistandard' % (name, i), tableau=sorted(c.items()), image=sorted(d.items()))
                want = list(crys.weight(c, n))
                want[i - 1] -= step
                want[i] += step
                ctx.equal(crys.weight(d, n), tuple(want), 'weight after %s_%d' % (name, i), tableau=sorted(c.items()))
                back = (u.e_crystal_operator if step == 1 else u.f_crystal_operator)(i, multisetvalued=multi)
                ctx.check(back is not None and view.tab(back) == c, 'undoing %s_%d' % (name, i), tableau=sorted(c.items()), image=sorted(d.items()))
                ctx.ev('large', (name, i, tuple(sorted(c.items()))))
                t, c, k = u, d, k + 1
            lengths.append(k)
        w = crys.weight(cells, n)
        ctx.equal(lengths[0] - lengths[1], w[i - 1] - w[i], 'string through a tableau in direction %d' % i, tableau=sorted(cells.items()))
    ctx.equal(view.tab(start), cells, 'the tableau changed')


KINDS = {'setvalued': setvalued, 'multiset': multiset, 'generator': generator, 'large': large}
