import itertools
import random
from vmon import ref, perm, ins, view, families as F
from vmon.ref import PRIME

TITLE = 'Grothendieck functions of permutations and involutions equal their definitions'
RULE = ('value: the function of a permutation or (fixed-point-free, signed) involution evaluated modulo 2^61-1 against a transfer '
        'computation over Demazure products; grassmannian: shapes whose elements must give G and GP, coefficient by coefficient. '
        'Non-trivial = a non-minimal element and at least one variable.')
ROUNDS = (9, 12)
REQUIRED = {'value': 250, 'grassmannian': 40}


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 89)
    steps = []
    for n in (1, 2, 3):
        steps += [('value', 'ordinary', w, k) for w in perm.everything(n) for k in (1, 2, 3)]
        steps += [('value', 'involution', w, k) for w in perm.involutions(n) for k in (1, 2, 3 if n < 3 or deep else 2)]
    steps += [('value', 'ordinary', w, 2) for w in rng.sample(list(perm.everything(4)), 24 if deep else 8)]
    steps += [('value', 'ordinary', w, 3) for w in rng.sample(list(perm.everything(4)), 4 if deep else 0)]
    steps += [('value', 'involution', w, 1) for w in perm.involutions(4)]
    steps += [('value', 'involution', w, 2) for w in ([rng.choice(perm.involutions(4))] if deep else [])]
    steps += [('value', 'fpf', z, k) for z in perm.fpf(2) + perm.fpf(4) for k in (1, 2, 3)]
    steps += [('value', 'fpf', z, 2) for z in rng.sample(perm.fpf(6), 15 if deep else 3)]
    steps += [('value', 'signed', z, k) for n in (1, 2) for z in perm.involutions(n, True) for k in (1, 2)]
    if deep:
        steps += [('value', 'signed', z, 1) for z in rng.sample(perm.involutions(3, True), 8)]
    # large ranks, few inversions
    steps += [('value', 'ordinary', perm.sparse(rng, rng.randint(5, 6), rng.randint(1, 3)), rng.choice((1, 2))) for _ in range(4)]
    steps += [('value', 'ordinary', perm.sparse(rng, rng.randint(7, 9), rng.randint(1, 3)), 1) for _ in range(4)]
    steps += [('value', 'involution', perm.sparse_involution(rng, rng.randint(5, 6), rng.randint(1, 2)), 1) for _ in range(4)]
    steps += [('value', 'fpf', perm.sparse_fpf(rng, 8, rng.randint(1, 2)), 1) for _ in range(4)]
    for n, ks in ((1, (5, 7)), (2, (4, 5, 6, 7))):
        steps += [('value', 'ordinary', w, k) for w in perm.everything(n) for k in ks]
        if n < 3:
            steps += [('value', 'involution', w, k) for w in perm.involutions(n) for k in ks if k < 5]
    steps += [('value', 'fpf', z, k) for z in perm.fpf(2) + perm.fpf(4)[:1] for k in (4, 5)]
    steps += [('value', 'signed', z, k) for z in perm.involutions(1, True) for k in (3, 4, 5)]
    for mu in ref.partitions_upto(4):
        steps.append(('grassmannian', 'ordinary', mu, 2 if sum(mu) > 3 else 3))
        if all(a > b for a, b in zip(mu, mu[1:])):
            steps.append(('grassmannian', 'fpf', mu, 2))
    rng.shuffle(steps)
    return F.split(steps, 20)


def call(kind, z, k):
    from permutations import Permutation as P
    p = P(*z)
    return {'ordinary': p.stable_grothendieck, 'involution': p.involution_stable_grothendieck,
            'fpf': p.symplectic_stable_grothendieck, 'signed': p.signed_involution_stable_grothendieck}[kind](k)


def act(kind, z, i):
    n = len(z)
    if kind == 'ordinary':
        return ref.demazure_right(z, i)
    if kind == 'fpf':
        if z[i - 1] == i + 1:
            return None
        s = ref.simple(i, n)
        return perm.mul(s, perm.mul(z, s)) if z[i - 1] < z[i] else z
    return perm.conj(z, i)


def transfer(kind, z, xs, beta):
    """Sum over factorisations into one piece per variable of beta^(letters - length) x^letters."""
    n = len(z)
    if n == 0:
        return 1
    letters = list(range(0 if kind == 'signed' else 1, n))
    runs = [tuple(reversed(c)) for r in range(len(letters) + 1) for c in itertools.combinations(letters, r)]
    if kind == 'signed':
        runs = [a + tuple(reversed(b)) for a in runs for b in runs]
    state = {ins.minfpf(n) if kind == 'fpf' else perm.identity(n): 1}
    for x in xs:
        new = {}
        for y, c in state.items():
            for run in runs:
                w = y
                for i in run:
                    w = act(kind, w, i)
                    if w is None:
                        break
                if w is not None:
                    new[w] = (new.get(w, 0) + c * pow(x * beta % PRIME, len(run), PRIME)) % PRIME
        state = new
    if kind == 'ordinary':
        length = perm.length(z)
    elif kind == 'fpf':
        length = (perm.length(z) - n // 2) // 2
    else:
        length = len(next(iter(perm.involution_word_sets(n, kind == 'signed')[z])))
    return state.get(z, 0) * pow(ref.inv(beta), length, PRIME) % PRIME


def value(ctx, kind, z, k):
    f = call(kind, z, k)
    r = len(ref.strip(z))
    got = view.sym(f)
    for pts, b in zip(F.POINTS, F.BETAS):
        xs = pts[:k]
        ctx.equal(view.eval_sym(got, xs, b), transfer(kind, z[:r], xs, b), 'value of the Grothendieck function', kind=kind, z=z, variables=k)
    ctx.ev('value', (kind, z, k), trivial=len(got) < 2)


def grassmannian(ctx, kind, mu, k):
    from permutations import Permutation as P
    get, fam = {'ordinary': (P.get_grassmannian, 'G'), 'fpf': (P.get_fpf_grassmannian, 'GP')}[kind]
    f = call(kind, tuple(get(*mu).oneline), k)
    ctx.equal(view.sym(f), view.sym(F.method(fam)(k, ref.conjugate(mu) if kind == 'ordinary' else mu)), 'Grothendieck function of a Grassmannian element', kind=kind, mu=mu, variables=k)
    ctx.ev('grassmannian', (kind, mu, k), trivial=not mu)


KINDS = {'value': value, 'grassmannian': grassmannian}
