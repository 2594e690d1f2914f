import random
from vmon import ref, perm, families as F

TITLE = 'Permutations form the (signed) symmetric group with its Coxeter structure'
RULE = ('algebra: random signed and unsigned permutations, every operation compared with one-line arithmetic, including equality and '
        'hashing across different presentations; small: all of a small group. Non-trivial = neither factor is the identity.')
REQUIRED = {'product': 1500, 'demazure': 1500, 'element': 1500, 'power': 500, 'special': 60}
ROUNDS = (24, 40)


def plan(tier, seed):
    deep = tier != 'quick'
    rng = random.Random(seed + 51)
    steps = [('algebra', rng.randrange(10 ** 8)) for _ in range(400 if deep else 80)]
    steps += [('small', n, s, rng.randrange(10 ** 8)) for n, s in [(1, True), (2, True), (3, False), (4, False)] + ([(3, True)] if deep else [])]
    steps += [('special', n) for n in range(1, 9)]
    rng.shuffle(steps)
    return F.split(steps, 16)


def observe(ctx, w, extra=0):
    """All unary facts about the one-line tuple w."""
    from permutations import Permutation
    n = len(w)
    p = Permutation(*w)
    for e in (extra, 7 * extra + 12):
        q = Permutation(list(ref.extend(w, n + e)))
        ctx.check(p == q and hash(p) == hash(q), 'one-line forms that differ by trailing fixed points differ', w=w, more=e)
    ctx.equal(tuple(p.oneline), ref.strip(w), 'one-line form', w=w)
    ctx.equal(p.rank, len(ref.strip(w)), 'rank', w=w)
    ctx.equal(p.oneline_repr(), (',' if len(ref.strip(w)) > 9 else '').join(map(str, ref.strip(w))), 'printed one-line form', w=w)
    ctx.equal([p(i) for i in range(-n - 2, n + 3)],
              [i if abs(i) > n or i == 0 else (w[i - 1] if i > 0 else -w[-i - 1]) for i in range(-n - 2, n + 3)], 'values', w=w)
    ctx.equal(perm.of(p.inverse(), n), ref.invert(w), 'inverse', w=w)
    ctx.equal((p.length, len(p)), (perm.length(w),) * 2, 'length', w=w)
    ctx.equal(set(p.right_descent_set), set(perm.rdes(w)), 'right descents', w=w)
    ctx.equal(set(p.left_descent_set), set(perm.rdes(ref.invert(w))), 'left descents', w=w)
    ctx.equal(p.is_involution(), perm.is_involution(w), 'is_involution', w=w)
    ctx.equal(p.is_identity(), w == perm.identity(n), 'is_identity', w=w)
    ctx.equal(p.is_unsigned(), all(a > 0 for a in w), 'is_unsigned', w=w)
    ctx.equal(p.is_even_signed(), sum(a < 0 for a in w) % 2 == 0, 'is_even_signed', w=w)
    m = len(ref.strip(w))
    ctx.equal(bool(p.is_fpf_involution()), perm.is_involution(w) and all(w[i] != i + 1 for i in range(m)), 'is_fpf_involution', w=w)
    ctx.equal(p.last_descent(), max([i for i in perm.rdes(w) if i], default=None), 'last_descent', w=w)
    if all(a > 0 for a in w):
        cyc, left = [], list(range(1, m + 1))
        while left:
            c = [left[0]]
            while w[c[-1] - 1] != c[0]:
                c.append(w[c[-1] - 1])
            left = [a for a in left if a not in c]
            cyc.append(c)
        ctx.equal([list(c) for c in p.cycles], cyc, 'cycles', w=w)
    if perm.is_involution(w):
        at = lambda a: w[a - 1] if a > 0 else -w[-a - 1]
        ctx.equal(sorted(p.pair()), sorted((a, at(a)) for a in range(-m, m + 1) if a and abs(a) < at(a)), 'two-cycles', w=w)
        ctx.equal(sorted(p.neg()), [(-a, -a) for a in range(m, 0, -1) if w[a - 1] == -a], 'negated points', w=w)
        ctx.equal(sorted(p.fix()), [(a, a) for a in range(1, m + 1) if w[a - 1] == a], 'fixed points', w=w)
        ctx.equal(p.involution_length,
                  (perm.length(w) + len({frozenset((abs(i + 1), abs(a))) for i, a in enumerate(w) if a != i + 1})) // 2,
                  'involution length', w=w)
    ctx.ev('element', w, trivial=w == perm.identity(n))
    return p


def pair(ctx, u, v, deep=True):
    n = max(len(u), len(v))
    p, q = observe(ctx, u, 1), observe(ctx, v)
    u, v = ref.extend(u, n), ref.extend(v, n)
    r = p * q
    ctx.equal(perm.of(r, n), perm.mul(u, v), 'product', u=u, v=v)
    ctx.ev('product', (u, v), trivial=perm.identity(n) in (u, v))
    d = p % q
    want = u
    word = q.get_reduced_word()
    ctx.equal(perm.product(word, n), v, 'reduced word', v=v, word=word)
    ctx.equal(len(word), perm.length(v), 'length of the reduced word', v=v, word=word)
    for i in word:
        want = ref.demazure_right(want, i)
    ctx.equal(perm.of(d, n), want, 'Demazure product', u=u, v=v)
    ctx.ev('demazure', (u, v), trivial=perm.identity(n) in (u, v))
    ctx.check((p == q) == (u == v), 'equality', u=u, v=v)
    ctx.check(p != q or hash(p) == hash(q), 'hashes of equal permutations differ', u=u)
    ctx.equal((p < q, q < p), (ref.strip(u) < ref.strip(v), ref.strip(v) < ref.strip(u)), 'order of permutations', u=u, v=v)
    ctx.check(observe_only(p) == ref.strip(u) and observe_only(q) == ref.strip(v), 'operands were modified', u=u, v=v)


def observe_only(p):
    return tuple(p.oneline)


def algebra(ctx, seed):
    from permutations import Permutation
    from tableaux import Tableau
    rng = random.Random(seed)
    for _ in range(8):
        signed = rng.random() < 0.5
        n, m = rng.randrange(1, 12 if signed else 15), rng.randrange(1, 12 if signed else 15)
        u, v = perm.random_perm(rng, n, signed), perm.random_perm(rng, m, signed)
        if rng.random() < 0.3:
            u = perm.random_involution(rng, n, signed)
        if rng.random() < 0.3:
            u = ref.extend(perm.random_perm(rng, max(1, n - 3), signed), n)
        pair(ctx, u, v)
        pair(ctx, v, u)
        p = Permutation(*u)
        if ref.strip(u):
            ctx.equal(p.tex(), '$%s$' % '\\hs '.join(('\\bar' if a < 0 else '') + str(abs(a)) for a in ref.strip(u)), 'typeset form', u=u)
        t = {(i, j): tuple(rng.choice((1, -1)) * rng.randrange(1, n + 3) for _ in range(rng.choice((1, 1, 2)))) for i in (1, 2) for j in (1, 2, 3) if rng.random() < .8}
        at = lambda a: (1 if a > 0 else -1) * ref.extend(u, n + 3)[abs(a) - 1]
        ctx.equal({(i, j): sorted(v) for i, j, v in p * Tableau(t)}, {b: sorted(at(a) for a in v) for b, v in t.items()}, 'a permutation applied to a tableau', u=u, t=t)
        k = rng.randrange(-6, 9) if rng.random() < .8 else rng.randrange(-20, 40)
        want = perm.identity(n)
        for _ in range(abs(k)):
            want = perm.mul(want, u if k > 0 else ref.invert(u))
        ctx.equal(perm.of(p ** k, n), want, 'power %d' % k, u=u)
        ctx.ev('power', (u, k), trivial=k in (0, 1))
        word = tuple(rng.randrange(0 if signed else 1, n + 1) for _ in range(rng.randrange(0, 12 if rng.random() < .8 else 40)))
        ctx.equal(perm.of(Permutation.from_word(word), n + 1), perm.product(word, n + 1), 'product of simple reflections', word=word)
        if not signed:
            w0 = tuple(range(p.rank, 0, -1))
            ctx.equal(perm.of(p.star(), p.rank), perm.mul(w0, perm.mul(ref.strip(u), w0)), 'star', u=u)


def small(ctx, n, signed, seed):
    rng = random.Random(seed)
    group = list(perm.everything(n, signed))
    pairs = [(u, v) for u in group for v in group]
    rng.shuffle(pairs)
    for u, v in pairs[:600]:
        pair(ctx, u, v)


def special(ctx, n):
    from permutations import Permutation as P
    ctx.equal(perm.of(P.longest_element(n), n), tuple(range(n, 0, -1)), 'longest element', n=n)
    ctx.equal(perm.of(P.longest_element(n, signed=True), n), tuple(range(-1, -n - 1, -1)), 'longest signed element', n=n)
    ctx.equal(perm.of(P.identity(), n), perm.identity(n), 'identity')
    for i in range(1, n + 1):
        ctx.equal(perm.of(P.s_i(i), n + 1), ref.simple(i, n + 1), 'simple reflection', i=i)
        for j in range(i, n + 1):
            if i < j:
                ctx.equal(perm.of(P.transposition(i, j), n), perm.transposition(i, j, n), 'transposition', i=i, j=j)
                ctx.equal(perm.of(P.transposition(j, i), n), perm.transposition(i, j, n), 'transposition', i=j, j=i)
            want = list(range(1, n + 1))
            want[i - 1], want[j - 1] = -j, -i
            ctx.equal(perm.of(P.reflection_s(i, j), n), tuple(want), 'reflection', i=i, j=j)
            ctx.ev('special', (n, i, j))
    ctx.equal(perm.of(P.s_i(0), n), ref.simple(0, n), 'negation')
    if n % 2 == 0:
        ctx.equal(perm.of(P.minfpf(n), n), tuple(i + 1 if i % 2 else i - 1 for i in range(1, n + 1)), 'minimal fixed-point-free involution')
    rng = random.Random(n)
    for _ in range(6):
        c = rng.sample(range(1, n + 1), rng.randrange(1, n + 1))
        want = {c[k]: c[(k + 1) % len(c)] for k in range(len(c))}
        ctx.equal(perm.of(P.cycle(*c), n), tuple(want.get(i, i) for i in range(1, n + 1)), 'cycle', cycle=c)
        ctx.ev('special', ('cycle', tuple(c)))


KINDS = {'algebra': algebra, 'small': small, 'special': special}
