import contextlib
import io
import random
from vmon import ref, perm, families as F

TITLE = 'Codes, shapes, Rothe diagrams and Grassmannian elements fit together'
RULE = ('element: every small permutation and (fixed-point-free) involution, codes, diagrams and shapes against counting inversions; '
        'grassmannian: every shape in a box or staircase against the element described directly; census: the lists of Grassmannian '
        'elements. Non-trivial = at least one inversion.')
REQUIRED = {'element': 300, 'grassmannian': 100, 'census': 20}
ROUNDS = (60, 90)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 83)
    steps = []
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        steps += [('element', w) for w in perm.everything(n)]
    steps += [('element', z) for z in perm.involutions(5) + perm.fpf(6)]
    steps += [('element', z) for z in rng.sample(perm.fpf(8), 20) + rng.sample(perm.involutions(7), 20)]
    steps += [('element', perm.random_perm(rng, rng.randrange(5, 14), False)) for _ in range(40)]
    steps += [('element', perm.random_involution(rng, rng.randrange(8, 14))) for _ in range(20)]
    steps += [('element', perm.random_involution(rng, rng.choice([10, 12]), False, False)) for _ in range(20)]
    steps += [('grassmannian', mu) for mu in ref.partitions_upto(10 if deep else 8)]
    steps += [('census', n) for n in list(range(1, 8)) + [8, 9, 10, 11, 12]]
    steps += [('grassmannian', tuple(sorted(rng.sample(range(1, 13), rng.randrange(4, 8)), reverse=True))) for _ in range(10)]
    rng.shuffle(steps)
    return F.split(steps, 12)


def trimmed(c):
    return tuple(sorted((a for a in c if a), reverse=True))


def element(ctx, w):
    from permutations import Permutation as P
    p = P(*w)
    m = p.rank
    w = w[:m]
    inv = [(i, w[j - 1]) for i in range(1, m + 1) for j in range(i + 1, m + 1) if w[i - 1] > w[j - 1]]
    ctx.equal(sorted(p.rothe_diagram()), sorted(inv), 'Rothe diagram', w=w)
    ctx.equal(tuple(p.code()), tuple(sum(1 for a, b in inv if a == i) for i in range(1, m + 1)), 'code', w=w)
    for french in (False, True):
        for D, show in ((inv, p.print_rothe_diagram), ([b for b in inv if b[0] >= b[1]], p.print_involution_rothe_diagram),
                        ([b for b in inv if b[0] > b[1]], p.print_fpf_rothe_diagram)):
            told = io.StringIO()
            with contextlib.redirect_stdout(told):
                show(french=french, sep='.')
            rows = told.getvalue().rstrip('\n').split('\n') if D else []
            rows = rows[::-1] if french else rows
            ctx.equal([(i + 1, j + 1) for i, row in enumerate(rows) for j, a in enumerate(row) if a == '*'], sorted(D), 'printed Rothe diagram', w=w)
            ctx.check(not D or set(''.join(rows)) <= {'*', '.'} and (len(rows), set(map(len, rows))) == (max(i for i, j in D), {max(j for i, j in D)}), 'printed Rothe diagram', w=w, rows=rows)
    u = ref.invert(w)
    ctx.equal(p.shape(), trimmed([sum(u[j] < u[i] for j in range(i + 1, m)) for i in range(m)]), 'shape', w=w)
    des = len(perm.rdes(u))
    if p.is_grassmannian():
        ctx.check(des <= 1, 'a Grassmannian permutation with several descents', w=w)
        ctx.check(P.get_grassmannian(*p.shape()) == p, 'a Grassmannian permutation is not determined by its shape', w=w)
    elif des == 0 or (des == 1 and u[0] > 1):
        ctx.check(False, 'a permutation with at most one descent is not recognised as Grassmannian', w=w)
    if perm.is_involution(w):
        for fpf in (False, True):
            if fpf and not (w and all(a != i + 1 for i, a in enumerate(w))):
                continue
            D = [(a, b) for a, b in inv if a > b or (a == b and not fpf)]
            diag, code, shape, length = ((p.fpf_rothe_diagram, p.fpf_involution_code, p.fpf_involution_shape, p.fpf_involution_length) if fpf else
                                         (p.involution_rothe_diagram, p.involution_code, p.involution_shape, p.involution_length))
            ctx.equal(sorted(diag()), sorted(D), 'involution Rothe diagram', w=w, fpf=fpf)
            want = tuple(sum(1 for a, b in D if a == i) for i in range(1, m + 1))
            cols = tuple(sum(1 for j in range(i + 1, m + 1) if w[j - 1] < w[i - 1] and (w[j - 1] < i or (w[j - 1] == i and not fpf)))
                         for i in range(1, m + 1))
            ctx.equal(tuple(code()), cols, 'involution code', w=w, fpf=fpf)
            ctx.equal(shape(), ref.conjugate(trimmed(cols)), 'involution shape', w=w, fpf=fpf)
            ctx.equal((sum(shape()), sum(want)), (length, length), 'size of the involution shape', w=w, fpf=fpf)
            arcs = sorted((i + 1, b) for i, b in enumerate(w) if b > i + 1)
            if fpf:
                kept = [(a, b) for a, b in arcs if any(a < j < b for i, j in arcs)]
                ok = not kept or ([b for a, b in kept] == list(range(kept[0][1], kept[0][1] + len(kept))) and max(a for a, b in kept) < kept[0][1])
                ctx.equal(bool(p.is_fpf_grassmannian()), ok, 'is_fpf_grassmannian', w=w)
            else:
                mirrored = [b for a, b in arcs]
                minimal = [a for a, b in arcs] == list(range(1, len(arcs) + 1)) and all(b > len(arcs) for b in mirrored) and mirrored == sorted(mirrored)
                ctx.equal(bool(p.is_inv_grassmannian()), minimal, 'is_inv_grassmannian', w=w)
    ctx.ev('element', w, trivial=not inv)


def grassmannian(ctx, mu):
    from permutations import Permutation as P
    p = P.get_grassmannian(*mu)
    n = max(p.rank, 1)
    u = perm.of(p.inverse(), n)
    k = len(mu)
    ctx.equal([a - i - 1 for i, a in enumerate(u[:k])], sorted(mu), 'values of the Grassmannian permutation of a shape', mu=mu)
    ctx.equal(perm.rdes(u), [k] if k else [], 'descents of the Grassmannian permutation of a shape', mu=mu)
    ctx.check(p.shape() == mu and p.is_grassmannian() and p.length == sum(mu), 'shape of the Grassmannian permutation', mu=mu, got=p.shape())
    ctx.ev('grassmannian', ('ordinary', mu), trivial=not mu)
    if all(a > b for a, b in zip(mu, mu[1:])):
        z = P.get_inv_grassmannian(*mu)
        w = tuple(z.oneline)
        arcs = sorted((i + 1, b) for i, b in enumerate(w) if b > i + 1)
        ctx.equal(arcs, [(i + 1, k + a) for i, a in enumerate(reversed(mu))], 'cycles of the Grassmannian involution of a shape', mu=mu)
        ctx.check(perm.is_involution(w) and z.involution_shape() == mu and z.is_inv_grassmannian(), 'shape of the Grassmannian involution', mu=mu)
        ctx.ev('grassmannian', ('involution', mu), trivial=not mu)
        y = P.get_fpf_grassmannian(*mu)
        ctx.check(y.is_fpf_involution(), 'not a fixed-point-free involution', mu=mu)
        ctx.check(y.fpf_involution_shape() == mu, 'shape of the fixed-point-free Grassmannian involution', mu=mu, got=y.fpf_involution_shape())
        ctx.check(y.star().is_fpf_grassmannian(), 'the mirror image of a fixed-point-free Grassmannian involution is not recognised', mu=mu)
        ctx.ev('grassmannian', ('fpf', mu), trivial=not mu)


def census(ctx, n):
    from permutations import Permutation as P
    jobs = [(P.grassmannians, 1, False, P.get_grassmannian), (P.inv_grassmannians, 2, True, P.get_inv_grassmannian)]
    if n % 2 == 0:
        jobs.append((P.fpf_grassmannians, 2, True, P.get_fpf_grassmannian))
    for t, (make, step, strict, get) in enumerate(jobs):
        if n > 8 and not t:
            continue
        delta = tuple(range(n - (2 if t == 2 else 1), 0, -step))
        got = list(make(n))
        ctx.equal(len(got), len(set(got)), 'repeated Grassmannian element', n=n)
        want = {get(*mu) for mu in ref.subpartitions(delta, strict=strict)}
        ctx.check(set(got) == want, 'list of the Grassmannian elements with shapes in the staircase', n=n, which=t, got=len(got), want=len(want))
        ctx.ev('census', (n, t), trivial=n < 3)


KINDS = {'element': element, 'grassmannian': grassmannian, 'census': census}
