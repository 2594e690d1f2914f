import random
from vmon import ref, view, families as F

TITLE = 'The mn_ and mp_ variants are their namesakes at minus beta'
RULE = ('flip: every coefficient of the variant against the independent definition with beta replaced by -beta; twice: '
        'negating beta twice restores the polynomial; kept: the unflipped polynomial, read again afterwards, is '
        'unchanged. Non-trivial = non-zero polynomial.')
REQUIRED = {'exact': 300, 'twice': 300, 'kept': 300}
ROUNDS = (15, 30)
VAR = {'G': 'mn_stable_grothendieck', 'GP': 'mn_stable_grothendieck_p', 'GQ': 'mn_stable_grothendieck_q',
       'g': 'mp_dual_stable_grothendieck', 'gp': 'mp_dual_stable_grothendieck_p', 'gq': 'mp_dual_stable_grothendieck_q'}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 7)
    steps = []
    for fam in VAR:
        strict = fam in F.STRICT
        size = (8 if strict else 6) if deep else (6 if strict else 5)
        for lam in F.shapes(fam, size):
            steps.append(('flip', fam, rng.choice((0, 1, 2, 3)), lam, ()))
            steps.append(('flip', fam, rng.choice((2, 3)), lam, ()))
        pairs = [(lam, mu) for lam in F.shapes(fam, size) for mu in F.shapes(fam, size) if mu and ref.contains(lam, mu)]
        for lam, mu in rng.sample(pairs, min(len(pairs), 300 if deep else 50)):
            steps.append(('flip', fam, rng.choice((1, 2, 3)), lam, mu))
        for _ in range(60 if deep else 16):
            steps.append(('flip', fam) + F.extreme(rng, strict))
            steps.append(('sign', fam) + F.large(rng, fam))
            steps.append(('flip', fam, rng.choice((1, 2))) + F.thin(rng, strict, 4, 4, 7))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 32)


def flip(ctx, fam, n, lam, mu):
    from symmetric import SymmetricPolynomial as SP
    plain = F.method(fam)(n, lam, mu)
    before = view.sym(plain)
    f = F.observe_exact(ctx, fam, n, lam, mu, fn=getattr(SP, VAR[fam]), flip=True)
    ctx.equal(view.sym(SP.negate_beta(f)), before, 'negating beta twice in %s of %r/%r' % (fam, lam, mu))
    ctx.ev('twice', (fam, n, lam, mu), trivial=not before)
    ctx.equal(view.sym(plain), before, 'the unflipped %s of %r/%r was altered' % (fam, lam, mu))
    ctx.equal(view.sym(F.method(fam)(n, lam, mu)), before, '%s of %r/%r changed after flipping' % (fam, lam, mu))
    ctx.ev('kept', (fam, n, lam, mu), trivial=not before)


def sign(ctx, fam, n, lam, mu):
    """Larger shapes: against the namesake, which is decided elsewhere."""
    from symmetric import SymmetricPolynomial as SP
    n = min(n, 5)
    got = view.sym(getattr(SP, VAR[fam])(n, lam, mu))
    want = {nu: {e: c * (-1) ** e for e, c in d.items()} for nu, d in view.sym(F.method(fam)(n, lam, mu)).items()}
    ctx.equal(got, want, '%s of %r/%r in %d variables' % (VAR[fam], lam, mu, n))
    ctx.ev('exact', (fam, n, lam, mu, 'large'), trivial=not want)


KINDS = {'flip': flip, 'sign': sign}
