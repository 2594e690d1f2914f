import random
from vmon import ref, families as F

TITLE = 'K-theoretic G, GP, GQ and GS polynomials equal their definitions'
RULE = ('exact: every coefficient (a power of beta) against an independent cell-by-cell count of set-valued '
        'fillings over all straight and sampled skew shapes and 0..n variables; value: larger shapes evaluated '
        'modulo 2^61-1 against the bialternant and Ikeda-Naruse formulas; slow: the enumerating implementations '
        'give the same. Non-trivial = the expected polynomial is not zero.')
REQUIRED = {'exact': 600, 'value': 60, 'slow': 30}
FAMS = ['G', 'GS', 'GP', 'GQ']


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 2)
    steps = []
    for fam in FAMS:
        strict = fam in F.STRICT
        size = (9 if strict else 6) if deep else (8 if strict else 5)
        for lam in F.shapes(fam, size):
            for n in (0, 1, 2, 3):
                steps.append(('exact', fam, n, lam, ()))
        for lam in F.shapes(fam, size - 2):
            steps.append(('exact', fam, 4, lam, ()))
        pairs = [(lam, mu) for lam in F.shapes(fam, size) for mu in F.shapes(fam, size) if mu
                 and (ref.contains(lam, mu) or rng.random() < 0.05)]
        k = 600 if deep else 160
        if len(pairs) > k:
            pairs = rng.sample(pairs, k)
        for lam, mu in pairs:
            steps.append(('exact', fam, rng.choice((1, 2, 3)), lam, mu))
        for _ in range(120 if deep else 30):
            n = rng.choice((1, 1, 2, 2, 3))
            steps.append(('exact', fam, n) + F.thin(rng, strict, 5 if n < 3 else 3))
            steps.append(('exact', fam) + F.extreme(rng, strict, True))
            steps.append(('chain', fam) + F.large(rng, fam))
            if fam != 'GS':
                steps.append(('value', fam) + F.large(rng, fam, 0))
        if fam != 'GS':
            big = [lam for lam in F.shapes(fam, 13 if strict else 10) if sum(lam) > 5]
            for lam in rng.sample(big, min(len(big), 150 if deep else 40)):
                steps.append(('value', fam, rng.choice((3, 4)), lam, ()))
        small = [(lam, mu) for lam in F.shapes(fam, 4) for mu in F.shapes(fam, 4)]
        for lam, mu in rng.sample(small, min(len(small), 40 if deep else 12)):
            steps.append(('slow', fam, 2, lam, mu))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def slow(ctx, fam, n, lam, mu):
    from symmetric import SymmetricPolynomial
    fn = getattr(SymmetricPolynomial, '_slow_' + F.FAM[fam][0])
    F.observe_exact(ctx, fam, n, lam, mu, fn=fn)
    ctx.ev('slow', (fam, n, lam, mu))


KINDS = {'exact': F.observe_exact, 'value': F.observe_value, 'chain': F.observe_chain, 'slow': slow}
