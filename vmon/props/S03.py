import itertools
import random
from vmon import ref, view, families as F
from vmon.ref import PRIME

TITLE = 'Skew and double-bar polynomials satisfy the branching rules'
RULE = ('doublebar: every coefficient against the definition as a signed-free sum over sets of removable corners of the '
        'inner shape, with the independent filling counts; branch: f_lambda(x,y) = sum f_mu(x) f_{lambda/mu}(y) (double-bar '
        'skew for set-valued families) at points modulo 2^61-1 with the code on both sides; undo: the single-bar '
        'polynomial recovered from double-bar ones. Non-trivial = non-zero polynomial.')
REQUIRED = {'doublebar': 300, 'branch': 150, 'undo': 60}
BAR = {'G': 'stable_grothendieck_doublebar', 'GS': 'stable_grothendieck_s_doublebar',
       'GP': 'stable_grothendieck_p_doublebar', 'GQ': 'stable_grothendieck_q_doublebar'}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 3)
    steps = []
    for fam in BAR:
        strict = fam in F.STRICT
        size = (8 if strict else 5)
        pairs = [(lam, mu) for lam in F.shapes(fam, size) for mu in F.shapes(fam, size)
                 if ref.contains(lam, mu) or rng.random() < 0.03]
        for lam, mu in rng.sample(pairs, min(len(pairs), 700 if deep else 130)):
            steps.append(('doublebar', fam, rng.choice((0, 1, 2, 3)), lam, mu))
        for lam, mu in rng.sample(pairs, min(len(pairs), 200 if deep else 40)):
            steps.append(('undo', fam, rng.choice((1, 2)), lam, mu))
        for _ in range(60 if deep else 15):
            steps.append(('doublebar', fam, rng.choice((1, 1, 2))) + F.thin(rng, strict, 4, 4, 7))
            steps.append(('chain', fam) + F.large(rng, fam, .8))
            n, lam, mu = F.extreme(rng, strict, 'G' in fam)
            if n < 7:
                steps.append(('doublebar', fam, n, lam, mu))
    for fam in F.FAM:
        strict = fam in F.STRICT
        shapes = F.shapes(fam, 9 if strict else 6)
        for lam in rng.sample(shapes, min(len(shapes), 40 if deep else 12)):
            inner = rng.choice(sorted(ref.subpartitions(lam, strict)))
            steps.append(('branch', fam, rng.choice((1, 2)), rng.choice((1, 2)), lam, ()))
            if fam not in ('gs', 'js'):
                steps.append(('branch', fam, 1, rng.choice((1, 2)), lam, inner))
    rng.shuffle(steps)
    return F.split(steps, 64 if deep else 40)


def corner_subsets(mu, strict):
    mu = list(mu)
    rows = [i for i in range(len(mu))
            if (i + 1 == len(mu) or mu[i] - 1 >= mu[i + 1] + (1 if strict else 0))]
    for k in range(len(rows) + 1):
        for sub in itertools.combinations(rows, k):
            nu = list(mu)
            for i in sub:
                nu[i] -= 1
            yield tuple(a for a in nu if a), k


def fn(fam):
    from symmetric import SymmetricPolynomial
    return getattr(SymmetricPolynomial, BAR[fam])


def doublebar(ctx, fam, n, lam, mu):
    want = {}
    if ref.contains(lam, mu):
        for nu, k in corner_subsets(mu, fam in F.STRICT):
            for al, d in F.exact(fam, n, lam, nu).items():
                t = want.setdefault(al, {})
                for e, c in d.items():
                    t[e + k] = t.get(e + k, 0) + c
    got = view.sym(fn(fam)(n, lam, mu))
    ctx.equal(got, want, '%s of %r//%r in %d variables' % (BAR[fam], lam, mu, n))
    ctx.ev('doublebar', (fam, n, lam, mu), trivial=not want)


def chain(ctx, fam, n, lam, mu):
    F.observe_chain(ctx, fam, n, lam, mu, bar=fn(fam))


def branch(ctx, fam, n, m, lam, kappa):
    f = F.method(fam)
    bar = fn(fam) if fam in BAR else f
    first = bar if kappa else f
    xs, b = F.POINTS[0][:n + m], F.BETAS[0]
    outer = first(n + m, lam, kappa)
    left = view.eval_sym(view.sym(outer), xs, b)
    right = 0
    for mu in ref.subpartitions(lam, fam in F.STRICT):
        if not ref.contains(mu, kappa):
            continue
        if fam in ('gs', 'js'):
            k = len(lam)
            mu = tuple(mu) + (0,) * (k - len(mu))
            sh = tuple(mu[i] + k - i for i in range(k))
            delta = tuple(range(k, 0, -1))
            q = F.method('gq' if fam == 'gs' else 'jq')
            u = view.eval_sym(view.sym(q(n, sh, delta)), xs[:n], b)
            top = tuple(lam[i] + k - i for i in range(k))
            v = view.eval_sym(view.sym(q(m, top, sh)), xs[n:], b)
        else:
            u = view.eval_sym(view.sym(first(n, mu, kappa)), xs[:n], b)
            v = view.eval_sym(view.sym(bar(m, lam, mu)), xs[n:], b)
        right = (right + u * v) % PRIME
    ctx.equal(left, right, 'branching of %s %r/%r in %d+%d variables' % (fam, lam, kappa, n, m))
    ctx.ev('branch', (fam, n, m, lam, kappa), trivial=not outer)


def undo(ctx, fam, n, lam, mu):
    xs, b = F.POINTS[1][:n], F.BETAS[1]
    f = F.method(fam)(n, lam, mu)
    left = view.eval_sym(view.sym(f), xs, b)
    right = 0
    if ref.contains(lam, mu):
        for nu in ref.subpartitions(mu, fam in F.STRICT):
            v = view.eval_sym(view.sym(fn(fam)(n, lam, nu)), xs, b)
            right = (right + pow(-b, sum(mu) - sum(nu), PRIME) * v) % PRIME
    ctx.equal(left, right, 'recovering %s %r/%r from double-bar polynomials' % (fam, lam, mu))
    ctx.ev('undo', (fam, n, lam, mu), trivial=not f)


KINDS = {'doublebar': doublebar, 'chain': chain, 'branch': branch, 'undo': undo}
