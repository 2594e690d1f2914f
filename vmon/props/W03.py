import itertools
import random
from vmon import ref, view, crys, ins, perm, families as F
from vmon.props.W02 import check_generator

TITLE = 'Crystals of factorizations and of shifted tableaux are complete and normal'
RULE = ('cuts: the factorizations of a word into weakly increasing or strictly decreasing factors against all cuts; words: the crystal '
        'of factorizations of Hecke words: elements, edges through insertion, normality, strings, components, drawings; shifted: the crystals '
        'on shifted tableaux of a shape. Non-trivial = at least one edge (one factorization).')
REQUIRED = {'cuts': 200, 'crystal': 20, 'generator': 20, 'element': 400}
ROUNDS = (6, 8)

KIND_NAMES = ('orthogonal', 'symplectic', 'orthogonal multi', 'symplectic multi', 'osv', 'urt', 'mrt', 'mrtsp')


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 303)
    steps = [('cuts', rng.randrange(10 ** 9)) for _ in range(150)]
    for w in ((1,), (2, 1), (1, 3, 2), (2, 3, 1), (3, 1, 2), (3, 2, 1), (2, 1, 4, 3), (1, 4, 3, 2), (2, 4, 1, 3)):
        for dec in (False, True):
            k = rng.choice((2, 3))
            base = perm.length(w)
            for l in (base, base + 1):
                if rng.random() < (.5 if not deep else .9) and (l + k <= 6 or (deep and l + k <= 7)):
                    steps.append(('words', w, k, l, dec))
    for mu in ref.strict_upto(4 if not deep else 5):
        for kind in KIND_NAMES:
            for n in (2, 3):
                excess = rng.choice((0, 1)) if not deep else rng.choice((0, 1, 1, 2))
                if not mu and excess:
                    continue
                if sum(mu) + excess + n <= (6 if not deep else 7) and rng.random() < .4:
                    steps.append(('shifted', kind, mu, n, excess))
    for w, k, l in (((2, 1), 5, 1), ((2, 1), 6, 2), ((1, 3, 2), 5, 1), ((2, 3, 1), 4, 2), ((3, 1, 2), 5, 2), ((2, 1, 4, 3), 4, 2), ((2, 3, 1), 3, 4), ((2, 1), 4, 4)):
        for dec in (False, True):
            if deep or rng.random() < .6:
                steps.append(('words', w, k, l, dec))
    for mu, n, excess in (((1,), 5, 0), ((1,), 6, 0), ((1,), 4, 1), ((2,), 5, 0), ((2, 1), 4, 0), ((3, 2, 1), 3, 0), ((3, 1), 3, 0)):
        for kind in KIND_NAMES:
            if deep or rng.random() < .4:
                steps.append(('shifted', kind, mu, n, excess))
    for w, k, l in (((2, 1), 2, rng.randrange(6, 10)), ((2, 1), 3, rng.randrange(8, 11)), ((2, 3, 1), 2, 6), ((3, 1, 2), 2, 6), ((2, 1, 3), 4, 5)):
        if deep or rng.random() < .4:
            steps.append(('words', w, k, l, False))
    for mu, n, excess in (((rng.randrange(5, 8),), 2, 0), ((4,), 2, 0), ((2,), 2, rng.randrange(2, 5)), ((2,), 4, rng.choice((2, 3))), ((1,), 3, rng.randrange(2, 5)), ((1,), 5, 2)):
        for kind in KIND_NAMES:
            if (deep or rng.random() < .12) and (sum(mu) < 5 or kind in ('urt', 'mrt', 'mrtsp')):
                steps.append(('shifted', kind, mu, n, excess))
    steps += [('shifted', kind, (4, 3, 2, 1), 4, 0) for kind in ('urt', 'mrt', 'mrtsp') if deep or rng.random() < .3]
    rng.shuffle(steps)
    return F.split(steps, 16)


def good(part, dec):
    return all(a > b if dec else a <= b for a, b in zip(part, part[1:]))


def all_cuts(w, k, dec):
    if k == 0:
        return {()} if not w else set()
    out = set()
    for cuts in itertools.combinations_with_replacement(range(len(w) + 1), k - 1):
        parts = tuple(w[a:b] for a, b in zip((0,) + cuts, cuts + (len(w),)))
        if all(good(p, dec) for p in parts):
            out.add(parts)
    return out


def cuts(ctx, salt):
    from crystals import WordCrystalGenerator as W
    rng = random.Random(salt)
    w = tuple(rng.randrange(1, 5) for _ in range(rng.randrange(0, 7)))
    k = rng.randrange(0, 4)
    dec = rng.random() < .5
    if rng.random() < .4:  # a few long runs, one of them with a flaw late in it
        w = []
        for _ in range(rng.randrange(1, 4)):
            run = sorted((rng.sample if rng.random() < .6 else rng.choices)(range(1, 15), k=rng.randrange(1, 12)), reverse=dec)
            if rng.random() < .4:
                i = rng.randrange(len(run))
                run.insert(i, run[i] + rng.choice((0, 0, 1, -1)))
            w += run
        w = tuple(w)
    got = list(W.get_increasing_factorizations(w, k, dec))
    ctx.equal(len(got), len(set(got)), 'repeated factorization', w=w, k=k)
    ctx.equal(set(got), all_cuts(w, k, dec), 'factorizations', w=w, k=k, decreasing=dec)
    if not dec:
        ctx.equal(set(W.get_increasing_factorizations(w, k)), set(got), 'factorizations by default', w=w, k=k)
    for f in got:
        ctx.equal(W.factorization_tuple_to_array(f), (w, tuple(t + 1 for t, p in enumerate(f) for _ in p)), 'two-line array', f=f)
    ctx.ev('cuts', (w, k, dec), trivial=not got)


def words(ctx, w, k, l, dec):
    from crystals import WordCrystalGenerator
    from insertion import InsertionAlgorithm as I
    g = WordCrystalGenerator(w, k, l, dec)
    n = len(w)
    want = set()
    for a in itertools.product(range(1, n), repeat=l):
        if ins.hecke_product(a, n) == w:
            for f in all_cuts(a, k, dec):
                want.add((a, tuple(t + 1 for t, p in enumerate(f) for _ in p)))
    els = [g[x] for x in range(len(g))]
    ctx.equal(len(els), len(set(els)), 'repeated element of the crystal of factorizations', w=w, k=k, l=l)
    ctx.equal(set(els), want, 'elements of the crystal of factorizations', w=w, k=k, l=l, decreasing=dec)
    sizes = [tuple(i.count(t) for t in range(1, k + 1)) for _, i in els]
    for x, (a, i) in enumerate(els):
        text = ''.join(str(tuple(c for c, t in zip(a, i) if t == y)) for y in range(1, k + 1))
        ctx.equal(g.node_label(x), text, 'label of an element')
        ctx.ev('element', (w, k, dec, a, i))
    pairs = {}
    for x, (a, i) in enumerate(els):
        p, q = I.hecke(a, i, multisetvalued=not dec)
        pairs[(view.pairs(view.tab(p)), view.pairs(view.tab(q)))] = x
    ctx.equal(len(pairs), len(els), 'two factorizations insert to the same pair')

    def step(x, i):
        p, q = I.hecke(*els[x], multisetvalued=not dec)
        u = q.f_crystal_operator(i, multisetvalued=not dec)
        if u is None:
            return None
        key = (view.pairs(view.tab(p)), view.pairs(view.tab(u)))
        ctx.check(key in pairs, 'the operator leaves the crystal of factorizations', element=els[x], i=i)
        return pairs[key]
    edges = check_generator(ctx, g, k, None, step, 'the crystal of factorizations', w=w, l=l, k=k, decreasing=dec)
    crys.check_normal(ctx, len(els), k, sizes, edges, 'the crystal of factorizations', w=w, l=l, decreasing=dec)
    ctx.ev('crystal', (w, k, l, dec), trivial=not edges)


def shifted(ctx, kind, mu, n, excess):
    import crystals as C
    from insertion import InsertionAlgorithm as I
    multi, symp = 'multi' in kind, 'sp' in kind or 'symp' in kind
    boxes = ref.cells(mu, (), True)
    total = sum(mu) + excess
    want = {t for t in ref.fillings(boxes, n, marked=True, setvalued=True, diagonal_primes=False)
            if sum(len(v) for _, v in t) == total}
    if not want:
        return       # an empty crystal cannot be asked for
    if kind in ('urt', 'mrt', 'mrtsp', 'osv'):
        cls = {'urt': C.URTShiftedCrystalGenerator, 'mrt': C.MRTShiftedCrystalGenerator, 'osv': C.OrthogonalSetvaluedShiftedCrystalGenerator,
               'mrtsp': C.MRT_Symplectic_ShiftedCrystalGenerator}[kind]
        g = cls(mu, n, excess)
    else:
        g = C.ShiftedCrystalGenerator(mu, n, excess, multi, symp)
    els = [frozenset(view.tab(g[x]).items()) for x in range(len(g))]
    ctx.equal(len(els), len(set(els)), 'repeated shifted tableau', kind=kind, mu=mu)
    if not multi:
        ctx.equal(set(els), want, 'elements of the shifted crystal', kind=kind, mu=mu, letters=n, excess=excess)
    for t in els:
        d = dict(t)
        ctx.equal(sorted(d), sorted(boxes), 'shape of an element of the shifted crystal', kind=kind, mu=mu)
        ctx.equal(sum(map(len, d.values())), total, 'size of an element of the shifted crystal', kind=kind, mu=mu)
        ctx.equal(ins.semistandard(d, multi), None, 'an element of the shifted crystal is not semistandard', kind=kind, t=d)
        ctx.check(all(abs(a) <= n for v in d.values() for a in v), 'a letter beyond the rank', t=d)
        ctx.ev('element', (kind, t))
    back = I.inverse_symplectic_hecke if symp else I.inverse_orthogonal_hecke
    fwd = I.symplectic_hecke if symp else I.orthogonal_hecke
    index = {t: x for x, t in enumerate(els)}
    ptab = view.tab(g.insertion_tableau)
    if kind in ('urt', 'mrt', 'mrtsp'):
        start = {'urt': lambda i: sum(mu[:i]), 'mrt': lambda i: 2 * i, 'mrtsp': lambda i: 2 * i + 1}[kind]
        ctx.equal(ptab, {(i + 1, i + j + 1): (start(i) + j + 1,) for i, part in enumerate(mu) for j in range(part)},
                  'insertion tableau of the shifted crystal', kind=kind, mu=mu)
    for x in range(len(g)):
        w, r = back(g.insertion_tableau, g[x], multi)
        want = {(k, j + 1): (v[j],) for k, v in ((1, r), (2, w)) for j in range(len(w))}
        ctx.equal(view.tab(g.arrays[x]), want, 'two-line array of an element of the shifted crystal', kind=kind, mu=mu, element=els[x])
        ctx.equal(g.node_label(x), str(g.arrays[x]), 'label of an element')

    def step(x, i):
        w, r = back(g.insertion_tableau, g[x], multi)
        p, q = I.hecke(w, r, multisetvalued=multi)
        q = q.f_crystal_operator(i, multisetvalued=multi)
        if q is None:
            return None
        w, r = I.inverse_hecke(p, q, multisetvalued=multi)
        p, q = fwd(w, r, multi)
        ctx.equal(view.tab(p), ptab, 'the operator changes the insertion tableau', kind=kind, mu=mu)
        return index[frozenset(view.tab(q).items())]
    edges = check_generator(ctx, g, n, None, step, 'the shifted crystal', kind=kind, mu=mu, letters=n, excess=excess)
    crys.check_normal(ctx, len(els), n, [crys.weight(dict(t), n) for t in els], edges, 'the shifted crystal', kind=kind, mu=mu, excess=excess)
    ctx.ev('crystal', (kind, mu, n, excess), trivial=not edges)


KINDS = {'cuts': cuts, 'words': words, 'shifted': shifted}
