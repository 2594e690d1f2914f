import random
from vmon import ref, view, families as F

TITLE = 'Transposed dual polynomials j, jp, jq and js equal their definitions'
RULE = ('exact: every coefficient against an independent count of semistandard (marked) tableaux in which each maximal run '
        'may collapse, for straight and skew shapes, 0..n variables; beta: several values of the optional parameter, '
        'interleaved; omega: the transposed Schur expansion of j equals the Schur expansion of g of the transposed shape. Non-trivial = non-zero.')
REQUIRED = {'exact': 300, 'beta': 60, 'omega': 15}
FAMS = ['j', 'jp', 'jq', 'js']
# the optional parameter as (sign, power): sign * beta ** power
PARAMS = [(-1, 1), (1, 1), (1, 2), (-1, 2), (-1, -1), (1, -1), (-1, 3)]


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 6)
    steps = []
    for fam in FAMS:
        strict = fam in F.STRICT
        size = (8 if strict else 6) if deep else (7 if strict else 5)
        if fam == 'js':
            size -= 1
        for lam in F.shapes(fam, size):
            for n in (0, 1, 2, 3):
                if n < 3 or sum(lam) < size:
                    steps.append(('exact', fam, n, lam, ()))
        pairs = [(lam, mu) for lam in F.shapes(fam, size) for mu in F.shapes(fam, size) if mu
                 and (ref.contains(lam, mu) or rng.random() < 0.05)]
        k = 300 if deep else 90
        for lam, mu in rng.sample(pairs, min(k, len(pairs))):
            steps.append(('exact', fam, rng.choice((1, 2, 3)), lam, mu))
        for _ in range(60 if deep else 16):
            n, lam, mu = F.extreme(rng, strict)
            if fam != 'js' or n * len(lam) < 31:
                steps.append(('exact', fam, n, lam, mu))
            steps.append(('chain', fam) + F.large(rng, fam))
            steps.append(('exact', fam, rng.choice((1, 2))) + F.thin(rng, strict, 4, 4, 7))
        for lam, mu in rng.sample(pairs, min(60 if deep else 16, len(pairs))):
            ps = list(PARAMS)
            rng.shuffle(ps)
            steps.append(('beta', fam, rng.choice((1, 2)), lam, mu, tuple(ps)))
    for lam in ref.partitions_upto(4 if not deep else 5):
        for mu in sorted(ref.subpartitions(lam)):
            if sum(lam) - sum(mu) <= 4 and (deep or rng.random() < 0.6):
                steps.append(('omega', lam, mu))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def beta(ctx, fam, n, lam, mu, params):
    from polynomials import beta as B
    f = F.method(fam)
    base = F.exact(fam, n, lam, mu)
    size = sum(lam) - sum(mu)
    for sign, power in params:
        value = B ** power * sign
        got = view.sym(f(n, lam, mu, value))
        want = {}
        for al, d in base.items():
            k = size - sum(al)
            (c,) = d.values()
            want[al] = {power * k: c * (-sign) ** k}
        ctx.equal(got, want, '%s of %r/%r in %d variables with parameter %d*beta^%d' % (fam, lam, mu, n, sign, power))
        ctx.ev('beta', (fam, n, lam, mu, sign, power), trivial=not want)


def omega(ctx, lam, mu):
    from symmetric import SymmetricPolynomial as SP
    n = sum(lam)
    a = view.vec(SP.omega_schur_expansion(SP.slow_transposed_dual_stable_grothendieck(n, lam, mu)))
    b = view.vec(SP.schur_expansion(SP.dual_stable_grothendieck(n, ref.conjugate(lam), ref.conjugate(mu))))
    # j carries beta with the opposite sign to g
    b = {nu: {e: c * (-1) ** e for e, c in d.items()} for nu, d in b.items()}
    ctx.equal(a, b, 'omega of j and g for %r/%r have different Schur expansions' % (lam, mu))
    ctx.ev('omega', (lam, mu), trivial=not a)


KINDS = {'exact': F.observe_exact, 'chain': F.observe_chain, 'beta': beta, 'omega': omega}
