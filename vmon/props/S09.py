import random
from vmon import ref, view, families as F

TITLE = 'Basis expansions recover the coefficients that built the polynomial'
RULE = ('combo: random combinations of basis elements with integer and beta-polynomial coefficients, expanded; the answer '
        'must be exactly the coefficients; cross: a polynomial of one family expanded in another basis, re-summed by '
        'evaluation modulo 2^61-1; omega: transposed Schur expansions; free: combinations of products of one-row gp polynomials; again: repeated expansion agrees and the argument is unchanged. Non-trivial = at '
        'least one non-zero coefficient.')
REQUIRED = {'omega': 25, 'free': 20, 'combo': 250, 'cross': 100, 'single': 150}
BASES = {
    'schur_expansion': ('s', 'schur'), 'grothendieck_expansion': ('G', 'stable_grothendieck'),
    'mn_grothendieck_expansion': ('G', 'mn_stable_grothendieck'),
    'dual_grothendieck_expansion': ('g', 'dual_stable_grothendieck'),
    'mp_dual_grothendieck_expansion': ('g', 'mp_dual_stable_grothendieck'),
    'j_expansion': ('j', 'slow_transposed_dual_stable_grothendieck'),
    'gp_expansion': ('gp', 'dual_stable_grothendieck_p'), 'gq_expansion': ('gq', 'dual_stable_grothendieck_q'),
    'mp_gp_expansion': ('gp', 'mp_dual_stable_grothendieck_p'), 'mp_gq_expansion': ('gq', 'mp_dual_stable_grothendieck_q'),
    'jp_expansion': ('jp', 'slow_transposed_dual_stable_grothendieck_p'),
    'jq_expansion': ('jq', 'slow_transposed_dual_stable_grothendieck_q'),
    'GP_expansion': ('GP', 'stable_grothendieck_p'), 'mn_GP_expansion': ('GP', 'mn_stable_grothendieck_p'),
    'GQ_expansion': ('GQ', 'stable_grothendieck_q'), 'mn_GQ_expansion': ('GQ', 'mn_stable_grothendieck_q'),
    'P_expansion': ('P', 'schur_p'), 'Q_expansion': ('Q', 'schur_q'),
}
# (what, expanded in): pairs for which the expansion is known to be finite in n variables
CROSS = [('g', 'schur_expansion'), ('P', 'schur_expansion'), ('Q', 'schur_expansion'), ('S', 'schur_expansion'),
         ('j', 'schur_expansion'), ('gp', 'schur_expansion'), ('gq', 'schur_expansion'), ('G', 'schur_expansion'),
         ('GP', 'schur_expansion'), ('GQ', 'schur_expansion'),
         ('Q', 'P_expansion'), ('S', 'Q_expansion'), ('GQ', 'GP_expansion'),
         ('s', 'dual_grothendieck_expansion'), ('gq', 'dual_grothendieck_expansion'), ('s', 'j_expansion'),
         ('gq', 'gp_expansion'), ('jq', 'jp_expansion')]


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 9)
    steps = []
    for name in BASES:
        for i in range(60 if deep else 16):
            steps.append(('combo', name, rng.choice((1, 2, 2, 3)), rng.randrange(10 ** 6)))
        fam = BASES[name][0]
        for i in range(20 if deep else 7):
            steps.append(('combo', name, rng.choice((3, 4, 5, 6) if fam[0] != 'j' else (3,)), rng.randrange(10 ** 6), True))
        for lam in F.shapes(fam, 7 if fam in F.STRICT else 4):
            if len(lam) <= 3 and (sum(lam) < 5 or deep):
                steps.append(('single', name, max(2, len(lam)), lam))
    for fam, name in CROSS:
        shapes = [x for x in F.shapes(fam, 6 if fam in F.STRICT else 5) if len(x) <= 3]
        for lam in rng.sample(shapes, min(len(shapes), 20 if deep else 8)):
            n = 2 if len(lam) <= 2 else 3
            steps.append(('cross', fam, name, n, lam))
        for i in range(12 if deep else 4):
            n, lam, mu = F.large(rng, fam, 0)
            n = min(n, 4) if fam[0] in 'GQ' else n
            if sum(lam) < (8 if fam[0] == 'G' else 10) and lam[0] < 7:   # the expansions recurse once per term
                steps.append(('cross', fam, name, min(n, 5), lam, True))
    steps += [('omega', rng.choice((1, 2, 3, 4, 5, 6)), rng.randrange(10 ** 6)) for _ in range(120 if deep else 30)]
    steps += [('free', rng.choice((1, 2, 2, 3)), rng.randrange(10 ** 6)) for _ in range(80 if deep else 24)]
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 48)


def coefficient(rng, beta):
    """(value for the code, {power: integer})"""
    kind = rng.randrange(4)
    if kind == 0:
        c = rng.choice((-3, -2, -1, 1, 2, 5))
        return c, {0: c}
    powers = rng.sample(rng.choice(((0, 1, 2, 3), (0, 1, 2, 3), range(-9, 10))), rng.choice((1, 1, 2, 3)))
    d = {p: rng.choice((-2, -1, 1, 3, 4)) for p in powers}
    v = 0
    for p, c in d.items():
        v = v + beta ** p * c
    return v, d


def build(name, n, terms):
    from symmetric import SymmetricPolynomial as SP
    basis = getattr(SP, BASES[name][1])
    f = 0
    for lam, c in terms:
        f = basis(n, lam) * c + f
    return f


def expand(ctx, name, f, want, what):
    from symmetric import SymmetricPolynomial as SP
    before = view.sym(f)
    got = view.vec(getattr(SP, name)(f))
    ctx.equal(got, want, what)
    ctx.equal(view.sym(f), before, what + ': the argument was altered')
    return before


def combo(ctx, name, n, salt, large=False):
    from polynomials import beta
    rng = random.Random(salt)
    fam = BASES[name][0]
    if large:
        shapes = sorted({F.large(rng, fam, 0)[1] for _ in range(8)})
        shapes = [x for x in shapes if len(x) <= n and (sum(x) < 15 or n < 5) and (fam not in ('GP', 'GQ') or sum(x) + 2 * n < 19)]
    else:
        shapes = [x for x in F.shapes(fam, 6 if fam in F.STRICT else (5 if n < 3 else 4)) if len(x) <= n]
    terms, want = [], {}
    for lam in rng.sample(shapes, min(len(shapes), rng.choice((1, 2, 3, 4)))):
        c, d = coefficient(rng, beta)
        terms.append((lam, c))
        want[lam] = d
    f = build(name, n, terms)
    expand(ctx, name, f, want, '%s in %d variables' % (name, n))
    expand(ctx, name, f, want, '%s in %d variables, second time' % (name, n))
    ctx.ev('combo', (name, n, tuple(sorted((k, tuple(sorted(v.items()))) for k, v in want.items()))))


def single(ctx, name, n, lam):
    f = build(name, n, [(lam, 1)])
    expand(ctx, name, f, {lam: {0: 1}}, '%s of the basis element %r in %d variables' % (name, lam, n))
    ctx.ev('single', (name, n, lam))


def cross(ctx, fam, name, n, lam, large=False):
    from symmetric import SymmetricPolynomial as SP
    f = F.method(fam)(n, lam)
    got = view.vec(getattr(SP, name)(f))
    basis = getattr(SP, BASES[name][1])
    xs, b = F.POINTS[0][:n], F.BETAS[0]
    total = 0
    for mu, d in got.items():
        total += view.eval_coeff(d, b) * view.eval_sym(view.sym(basis(n, mu)), xs, b)
    ctx.equal(total % ref.PRIME, F.chain_value(fam, lam, (), xs, b) if large else view.eval_sym(F.exact(fam, n, lam), xs, b),
              '%s of %s %r in %d variables does not add up' % (name, fam, lam, n), expansion=got)
    ctx.ev('cross', (fam, name, n, lam), trivial=not got)


def free(ctx, n, salt):
    from polynomials import beta
    from symmetric import SymmetricPolynomial as SP
    rng = random.Random(salt)
    shapes = [x for x in F.shapes('gp', 6) if len(x) <= n and x]
    f, want = 0, {}
    for lam in rng.sample(shapes, min(len(shapes), rng.choice((1, 2, 3)))):
        c, d = coefficient(rng, beta)
        g = 1
        for part in lam:
            g = SP.dual_stable_grothendieck_p(n, (part,)) * g
        f = g * c + f
        want[lam] = d
    before = view.sym(f)
    for turn in range(2):
        ctx.equal(view.vec(SP.gp_free_expansion(f)), want, 'expansion in products of one-row gp polynomials in %d variables' % n, turn=turn)
    ctx.equal(view.sym(f), before, 'the argument of gp_free_expansion was altered')
    ctx.ev('free', (n, tuple(sorted((k, tuple(sorted(v.items()))) for k, v in want.items()))))


def omega(ctx, n, salt):
    """omega_schur_expansion transposes the shapes of a Schur expansion."""
    from polynomials import beta
    from symmetric import SymmetricPolynomial as SP
    rng = random.Random(salt)
    shapes = [x for x in ref.partitions_upto(6 if n < 4 else 5) if len(x) <= n] + [(1,) * n, (2,) + (1,) * (n - 1), (rng.randint(6, 9),)]
    terms, want = [], {}
    for lam in sorted(set(rng.sample(shapes, min(len(shapes), rng.choice((1, 2, 3)))))):
        c, d = coefficient(rng, beta)
        terms.append((lam, c))
        want[ref.conjugate(lam)] = d
    f = 0
    for lam, c in terms:
        f = SP.schur(n, lam) * c + f
    ctx.equal(view.vec(SP.omega_schur_expansion(f)), want, 'transposed Schur expansion in %d variables' % n)
    ctx.ev('omega', (n, tuple(sorted(want))))


KINDS = {'omega': omega, 'free': free, 'combo': combo, 'single': single, 'cross': cross}
